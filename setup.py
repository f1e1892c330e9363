#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles /repo's current sources itself.
Setup only confirms that the verifier is present and answers."""
import subprocess, sys
for c in (["cbmc", "--version"], ["goto-cc", "--version"], ["goto-instrument", "--version"], ["gcc", "--version"]):
    r = subprocess.run(c, capture_output=True, text=True)
    if r.returncode != 0:
        sys.exit("missing tool: " + c[0])
print("ok")
