import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from xforms import RT_SOURCE, RT_ALLOC
LEVEL = "bounded"
FN = ["force_signal", "release_signal", "deposit_signal", "calculate_driving_value", "call_resolution", "source_value",
      "update_driving", "put_driving", "put_effective", "notify_event", "update_driver", "get_pseudo_source", "add_source"]
DEFAULTS = dict(xform={**RT_SOURCE, **RT_ALLOC}, file="h_driving.c", unwind=17, level="bounded", functions=FN, solver="cadical",
                flags=["--object-bits", "12", "--no-standard-checks", "--unwinding-assertions"])
UNITS = []
def u(name, **d):
    UNITS.append(dict(id=name, defs=["-D%s=%s" % (k, v) for k, v in d.items()], bound="at most three drivers, a force and a deposit; two elements"))
RN = ["plain", "table", "general", "ident"]
# drivers and resolution
for res in range(4):
    for nd in ((1,) if res == 0 else (1, 2)):
        for nulls in range(1 << nd):
            for order in (0, 3):
                u("%s_%d_%d_%s" % (RN[res], nd, nulls, ["", "", "", "ps"][order]), RES=res, ND=nd, NULLS=nulls, ORDER=order)
for res in (1, 2):
    for nulls in (0, 1, 2, 4, 5):
        u("%s_3_%d" % (RN[res], nulls), RES=res, ND=3, NULLS=nulls)
u("register", RES=1, ND=2, NULLS=3, SFLAGS="SIG_F_REGISTER")
# pseudo sources
for order in range(5):
    for a in (1, 2, 3):
        u("pseudo%d_%d" % (order, a), RES=1, ND=1, ORDER=order, OP1=a)
        for b in (0, 1, 2, 3):
            if a != b:
                u("pseudo%d_%d%d" % (order, a, b), RES=1, ND=1, ORDER=order, OP1=a, OP2=b)
for order in range(5):
    for a in (1, 2, 3):
        u("undriven%d_%d" % (order, a), RES=0, ND=0, ORDER=order, OP1=a)
        u("undriven_res%d_%d" % (order, a), RES=1, ND=0, ORDER=order, OP1=a)
