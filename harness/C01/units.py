import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from xforms import RT_SOURCE, RT_ALLOC
LEVEL = "bounded"
FN = ["x_sched_waveform", "x_sched_waveform_s", "x_disconnect", "sched_driver", "sched_disconnect", "insert_transaction",
      "update_driver", "update_driving", "calculate_driving_value", "put_driving", "put_effective", "notify_event"]
DEFAULTS = dict(xform={**RT_SOURCE, **RT_ALLOC}, file="h_driver.c", level="bounded", functions=FN, solver="cadical", flags=["--object-bits", "12", "--no-standard-checks", "--unwinding-assertions"])
UNITS = []
SLOW = ['large2', 'large2_null', 'part2', 'byte2_scalar', 'fast_part_00_later', 'fast_part_01_later', 'fast_large_00_later', 'fast_large_01_later', 'fast_large_01_zero']
def u(name, vsz, elem, k, nops, *d, **kw):
    kw.setdefault('unwind', max(vsz + 2, 7))
    if name in SLOW: kw['tier'] = 'thorough'
    UNITS.append(dict(id=name, defs=["-DVSZ=%d" % vsz, "-DELEM=%d" % elem, "-DK=%d" % k, "-DNOPS=%d" % nops] + list(d),
                      bound="%d pending transactions, %d assignment(s), value of %d byte(s)" % (k, nops, vsz), **kw))
KINDS = {0: "", 1: "_null", 2: "_scalar"}
for k in range(3):
    for nm, vsz, el, kinds in (("byte", 1, 1, (0, 1, 2)), ("part", 3, 1, (0, 1)), ("large", 12, 4, (0, 1))):
        for kd in kinds:
            u("%s%d%s" % (nm, k, KINDS[kd]), vsz, el, k, 1, "-DKIND=%d" % kd)
for nm, vsz, el in (("", 1, 1), ("_part", 3, 1), ("_large", 12, 4)):
    u("mature" + nm, vsz, el, 2, 0, "-DMATURE")
    for a in (0, 1):
        u("fast%s_%d" % (nm, a), vsz, el, 0, 1, "-DFAST", "-DMATURE", "-DKIND=%d" % a)
        # first assignment without delay, so that the second finds it pending
        u("fast%s_0%d_zero" % (nm, a), vsz, el, 0, 2, "-DFAST", "-DMATURE", "-DKIND=0", "-DKIND2=%d" % a, "-DZERO=3")
        u("fast%s_0%d_later" % (nm, a), vsz, el, 0, 2, "-DFAST", "-DMATURE", "-DKIND=0", "-DKIND2=%d" % a, "-DZERO=1")
