#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import importlib.util, json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, technique=technique, note=note, na=na))

exec(open(os.path.join(HERE, "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"],
                         state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=list(p["observe"]), hook_needed=None))) + "\n")

checks, na = [], []
for p in P:
    path = os.path.join(HERE, "harness", p["id"], "units.py")
    if p["na"] or not os.path.exists(path):
        na.append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
        continue
    spec = importlib.util.spec_from_file_location("u", path)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py " + p["id"],
                       thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique=p["technique"] or "contract-based deductive verification (CBMC contracts on the real C functions)",
                       level=m.LEVEL, level_note=p["note"]))
man = dict(version=1, setup_cmd="python3 setup.py",
           hooks=dict(guard="NVC_VERIFY", enable="goto-cc -DNVC_VERIFY=1 -I/verif/lib (run.py does this); with the "
                      "guard off LOOP_CONTRACT() expands to nothing",
                      source_commits=HOOKS),
           checks=checks, not_applicable=na,
           notes="See DESIGN.md. One runner (run.py), one directory of proof units per property (harness/<id>).")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
