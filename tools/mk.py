import os, subprocess, json, stat
LINK='''B=/repo/_build
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'find "$d" -delete' EXIT
gcc -std=gnu11 -g -w -DHAVE_CONFIG_H -D_GNU_SOURCE -I$B -I/repo/src -I/repo/thirdparty -I/repo "$here/demo.c" -o "$d/demo" \\
   -Wl,--start-group $B/lib/libnvc.a $B/lib/libfst.a $B/lib/libfastlz.a $B/lib/libcpustate.a $B/lib/libgnulib.a $B/lib/libsha1.a -Wl,--end-group \\
   -L/usr/lib/llvm-18/lib -lz -ldw -lelf -lffi -lcapstone -lzstd -ljansson -lLLVM-18 -ltcl8.6 -ltclstub8.6 -lm -lreadline -lpthread \\
   -Wl,--dynamic-list=/repo/src/symbols.txt || exit 3
cd "$d" && timeout 60 ./demo
'''
VHDL='''here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'find "$d" -delete' EXIT
cp "$here"/*.vhd "$d"/ && cd "$d" || exit 2
timeout 120 /repo/_build/bin/nvc @STD@ -L /repo/_build/lib -a *.vhd -e @EFLAGS@ top -r top @RFLAGS@
'''
def bug(id, prop, edits, needs, breaks, c=None, vhd=None, std="--std=2008", eflags="", rflags="", sh=None):
    d='/verif/seeded/'+id; os.makedirs(d, exist_ok=True)
    for f,old,new in edits:
        p='/repo/src/'+f; s=open(p,encoding='latin1').read()
        assert s.count(old)==1,(id,f,old,s.count(old))
        open(p,'w',encoding='latin1').write(s.replace(old,new))
    diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True).stdout
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','wb').write(diff)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    if c:
        open(d+'/demo.c','w').write('''#include "util.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); exit(1); } } while (0)
'''+c)
    if vhd: open(d+'/top.vhd','w').write(vhd)
    body = sh or (LINK if c else VHDL.replace('@STD@',std).replace('@EFLAGS@',eflags).replace('@RFLAGS@',rflags))
    open(d+'/demo.sh','w').write('#!/bin/bash\n'+body)
    os.chmod(d+'/demo.sh',0o755)
    print('wrote',id)
