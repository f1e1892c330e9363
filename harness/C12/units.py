import re
LEVEL = "other"
EXPLANATION = ("Contracts of the four-state number functions discharged by CBMC for every content of each listed width "
               "and, for literals, each listed number of digits; other widths are not covered.")
PACK = ["number_pack", "number_bit", "number_width", "number_is_defined", "number_integer"]

# The tag is read through a function of the harness that states which one the
# unit is about
XF = {"vlog/vlog-number.c": [(r"\b(\w+(?:\.|->)common\.tag)\b(?!\s*=[^=])", r"env_tag(\1)")]}

def tag(w, xz):
    return "TAG_INTEGER" if not xz and w <= 32 else "TAG_SMALLNUM" if w <= 28 else "TAG_BIGNUM"

def _u(id, op, fns, w, defs=[], **k):
    return dict(id=id, file="h_number.c", defs=["-DOP=%d" % op, "-DWIDTH=%d" % w] + defs, unwind=max(w, k.pop("w2", 0)) + 14,
                level="bounded", solver="cadical", weight=w, functions=fns, stubs=True, xform=XF,
                flags=["--max-field-sensitivity-array-size", "200"], **k)

WIDTHS = [1, 2, 8, 27, 28, 29, 31, 32, 33, 40, 56, 63, 64, 65, 95, 96, 97, 128, 129]
UNITS = []
for w in WIDTHS:
    for xz in ([0, 1] if w == 1 else [0, 1, w // 2 + 1]):
        UNITS.append(_u("pack_%d_%d" % (w, xz), 0, PACK, w, ["-DXZ=%d" % xz, "-DEXPECT=" + tag(w, xz)], bound="%d bits" % w))
        if xz < 2 and not (xz and 29 <= w <= 32):
            UNITS.append(_u("file_%d_%d" % (w, xz), 4, ["number_write", "number_read", "number_equal"] + PACK, w,
                            ["-DXZ=%d" % xz, "-DEXPECT=" + tag(w, xz)], bound="%d bits" % w))
for a, b in [(1, 1), (3, 4), (4, 29), (8, 32), (28, 28), (29, 29), (33, 33), (33, 64), (64, 65), (65, 97)]:
    for xa, xb in [(0, 0), (1, 0), (0, 1), (1, 1)]:
        if tag(a, xa) != tag(b, xb) and a > 4:
            continue
        UNITS.append(_u("equal_%d_%d_%d%d" % (a, b, xa, xb), 1, ["number_equal", "number_bit", "number_pack"], a,
                        ["-DWIDTH2=%d" % b, "-DXZ=%d" % xa, "-DXZ2=%d" % xb] +
                        (["-DEXPECT=" + tag(a, xa)] if tag(a, xa) == tag(b, xb) else []), w2=b, bound="%d and %d bits" % (a, b)))

NEW = ["number_new", "number_shift_left"] + PACK
def lit(w, op, nd, xz, us=None, bare=False, sym=False):
    c = {2: "b", 3: "h", 5: "d"}[op]
    pre = "%d'%s" % (w, c)
    if bare:
        pre = "" if op == 5 else "'" + c
    d = ["-DNDIG=%d" % nd, "-DXZ=%d" % xz, '-DLITERAL_PREFIX="%s"' % pre, "-DNTEXT=%d" % (1 if sym else 3)]
    d.append("-DEXPECT=" + tag(w, xz))
    if sym:
        d.append("-DSYM=1")
    if us is not None:
        d.append("-DUNDERSCORE=%d" % us)
    return _u("lit%s%d_%d_%d%s%s" % (c, w, nd, xz, "_bare" if bare else "_us" if us is not None else "", "_sym" if sym else ""), op, NEW, w, d,
              w2=max(nd, 12), bound="%d digits for %d bits, %s" % (nd, w, "all digits" if sym else "three texts"))

for w in [1, 8, 27, 28, 29, 32, 33, 64, 65, 97]:
    if w > 1:
        for xz in [0, 1]:
            if tag(w, xz) != "TAG_INTEGER":
                UNITS.append(_u("shift1_%d_%d" % (w, xz), 6, ["number_shift_left"], w, ["-DNDIG=1", "-DXZ=%d" % xz, "-DEXPECT=" + tag(w, xz)], bound="%d bits" % w))
                if w > 4:
                    UNITS.append(_u("shift4_%d_%d" % (w, xz), 6, ["number_shift_left"], w, ["-DNDIG=4", "-DXZ=%d" % xz, "-DEXPECT=" + tag(w, xz)], bound="%d bits" % w))
    for op, nd, xz in [(2, w, 0), (2, w, 1), (2, w, w // 2), (2, 4, 0), (3, w // 4, 0), (3, w // 4, 1)]:
        if (nd < w or op == 2) and nd <= w and nd > 0 and (op == 2 or w % 4 == 0) and (w > 1 or xz < 2 or not xz) and tag(w, xz) != "TAG_SMALLNUM":
            UNITS.append(lit(w, op, nd, xz))
for w in [8, 32]:
    UNITS.append(lit(w, 2, w, 0, us=4))
    UNITS.append(lit(w, 3, w // 4, 0, us=1))
for w in [2, 8, 28, 33]:
    UNITS.append(lit(w, 2, 2, 2, sym=True))
for w in [8, 33]:
    UNITS.append(lit(w, 3, 2, 0, sym=True))
    UNITS.append(lit(w, 3, 2, 2, sym=True))
UNITS.append(lit(32, 3, 8, 0, bare=True))
UNITS.append(lit(32, 3, 8, 3, bare=True))
UNITS.append(lit(32, 5, 9, 0, bare=True))
UNITS.append(lit(8, 5, 2, 0))
UNITS.append(lit(32, 5, 9, 0))

seen = set()
UNITS = [u for u in UNITS if not (u["id"] in seen or seen.add(u["id"]))]
QUICK = {1, 3, 8, 28, 29, 32, 33, 64, 65, 97}
for u in UNITS:
    w = int(re.search(r"\d+_|\d+$", u["id"].split("_", 1)[1] + "_" if not u["id"].startswith("lit") else u["id"][4:] + "_").group().rstrip("_"))
    heavy = u["id"] in ("equal_29_29_11", "equal_8_32_00", "equal_28_28_00", "equal_65_97_10", "equal_65_97_01", "equal_29_29_00",
                        "equal_64_65_01", "equal_64_65_10", "equal_64_65_00", "file_97_1", "litb97_97_1", "litb97_97_48",
                        "litb64_64_0", "litb64_64_1", "litb65_65_0", "equal_4_29_11")
    if w not in QUICK | {4} or heavy or (w == 4 and "29" not in u["id"]):
        u["tier"] = "thorough"
