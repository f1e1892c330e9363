import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from xforms import RT_SOURCE, RT_ALLOC
LEVEL = "bounded"
FN = ["split_nexus_slow", "clone_nexus", "clone_source", "split_value", "add_source", "x_sched_waveform", "x_disconnect",
      "force_signal", "release_signal", "deposit_signal", "update_driver", "fast_update_driver", "update_driving"]
DEFAULTS = dict(drop=["wakeup_one", "build_index", "update_index"], xform={**RT_SOURCE, **RT_ALLOC}, file="h_split.c", level="bounded", functions=FN, solver="cadical",
                flags=["--object-bits", "12", "--no-standard-checks", "--unwinding-assertions"])
UNITS = []
def u(name, tier='quick', **d):
    w, el = d.get("W", 4), d.get("ELEM", 1)
    UNITS.append(dict(id=name, tier=tier, flags=DEFAULTS["flags"] + ["--max-field-sensitivity-array-size", "200"], defs=["-D%s=%s" % (k, v) for k, v in d.items()], unwind=max(14, w * el + 2),
                      bound="%d elements of %d byte(s), two operations on parts, one pending transaction" % (w, el)))
OPN = ["sched", "null", "force", "release", "deposit"]
RANGES = dict(head=(0, 1), tail=(2, 2), mid=(1, 2))
STATES = {"plain": dict(K=0), "later": dict(DUE=8), "due": dict(DUE=0), "between": dict(DUE=3), "nulled": dict(DUE=3, PNULL=1),
          "forced": dict(FORCE=1, K=0), "forcing": dict(FORCE=2, K=0), "releasing": dict(FORCE=2, FORCED=0, K=0), "released": dict(FORCE=1, FORCED=0, DUE=0),
          "queued": dict(QUEUED=1, K=0)}
n = 0
for st, sd in STATES.items():
    for op in range(5):
        # every kind of part for the middle, the ends in turn
        for nm in ("mid", ("head", "tail")[n % 2]):
            o, c = RANGES[nm]
            u("%s_%s_%s" % (OPN[op], nm, st), tier="quick" if nm == "mid" or n % 3 == 0 else "thorough", OP1=op, OFF1=o, CNT1=c, AFTER=0 if n % 3 == 0 else 5, **sd)
        n += 1
# two operations on overlapping parts
n = 0
for a in range(5):
    for b in range(5):
        o1, c1, o2, c2 = [(0, 2, 1, 2), (1, 2, 0, 4), (2, 2, 0, 3), (0, 3, 1, 1), (1, 1, 3, 1)][n % 5]
        st = list(STATES.values())[n % len(STATES)]
        u("two_%s_%s" % (OPN[a], OPN[b]), OP1=a, OP2=b, OFF1=o1, CNT1=c1, OFF2=o2, CNT2=c2, AFTER=0 if n % 2 else 5, **st)
        n += 1
# sizes around the limit of values held in place
for w in (3, 5, 6):
    tier = 'thorough' if w == 5 else 'quick'
    for nm, (o, c) in dict(head=(0, 1), tail=(w - 1, 1), mid=(1, w - 2), half=(0, w // 2)).items():
        u("wide%d_%s" % (w, nm), tier=tier, W=w, ELEM=4, OP1=0, OFF1=o, CNT1=c)
        u("wide%d_%s_force" % (w, nm), tier=tier, W=w, ELEM=4, OP1=2, OFF1=o, CNT1=c, FORCE=2, K=0)
        u("wide%d_%s_queued" % (w, nm), tier=tier, W=w, ELEM=4, OP1=4, OFF1=o, CNT1=c, QUEUED=1, K=0)
# the second operation spans pieces made by the first
for a in range(5):
    u("span_%s" % OPN[a], W=3, ELEM=2, OP1=(a + 1) % 5, OP2=a, OFF1=1, CNT1=1, OFF2=0, CNT2=3, AFTER=5, K=0)
for p, later in ((4, None), (4, 2), (5, None), (5, 2)):
    UNITS.append(dict(id="index%d%s" % (p, "" if later is None else "_add%d" % later), file="h_index.c", optional=True, tier="quick" if p == 4 and later is None else "thorough", unwind=p * 3 + 4, drop=["clone_nexus"],
                      defs=["-DP=%d" % p] + ([] if later is None else ["-DLATER=%d" % later]), functions=["build_index", "update_index", "lookup_index", "split_nexus_slow"],
                      bound="%d pieces of up to 3 elements" % p))
