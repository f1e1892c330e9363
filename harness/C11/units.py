LEVEL = "other"
EXPLANATION = ("Contracts of the native implementations of library operators discharged by CBMC for every content of "
               "operands of each listed pair of lengths; other lengths are not covered.")
DEFAULTS = dict(file="h_intrin.c", level="bounded", solver="cadical", unwind=100, native=True, flags=['--max-field-sensitivity-array-size', '200'])
UNITS = []
def u(id, fn, l, r, defs, slack=0, tlab=0, **k):
    UNITS.append(dict(id=id, functions=[fn], weight=(l + r), bound="lengths %d and %d" % (l, r),
                      defs=["-DFUNC=" + fn, "-DL=%d" % l, "-DR=%d" % r, "-DSLACK=%d" % slack, "-DTLAB=%d" % tlab, "-DLTO=%d" % (len(UNITS) % 2), "-DRTO=%d" % (len(UNITS) // 2 % 2)] + defs, **k))

for nm, sg, ad in [("plus_unsigned", 0, 1), ("plus_signed", 1, 1), ("minus_unsigned", 0, -1), ("minus_signed", 1, -1)]:
    for l, r in [(0, 3), (3, 0), (1, 1), (3, 5), (8, 8), (9, 7), (16, 16), (5, 17), (24, 3)]:
        u("%s_%d_%d" % (nm, l, r), "ieee_" + nm, l, r, ["-DADD=%d" % ad, "-DSIGNED=%d" % sg])
    u("%s_tlab" % nm, "ieee_" + nm, 7, 9, ["-DADD=%d" % ad, "-DSIGNED=%d" % sg], tlab=64)
for nm, sg in [("mul_unsigned", 0), ("mul_signed", 1)]:
    for l, r in [(0, 3), (3, 0), (1, 1), (2, 3), (3, 2), (4, 4), (1, 8), (5, 3), (6, 5)]:
        u("%s_%d_%d" % (nm, l, r), "ieee_" + nm, l, r, ["-DMUL=1", "-DSIGNED=%d" % sg])
        if l and r:
            u("syn_%s_%d_%d" % (nm, l, r), "synopsys_" + nm, l, r, ["-DMUL=1", "-DSIGNED=%d" % sg])
    u("%s_tlab" % nm, "ieee_" + nm, 2, 3, ["-DMUL=1", "-DSIGNED=%d" % sg], tlab=96)
    u("syn_%s_tlab" % nm, "synopsys_" + nm, 2, 3, ["-DMUL=1", "-DSIGNED=%d" % sg], tlab=96)
for nm, op in [("less", "<"), ("greater", ">"), ("leq", "<="), ("geq", ">=")]:
    for l, r in [(0, 3), (3, 0), (1, 1), (3, 5), (8, 8), (17, 9)]:
        u("%s_%d_%d" % (nm, l, r), "ieee_%s_unsigned" % nm, l, r, ["-DCMP=" + op])
for nm, op in [("and", 1), ("or", 2), ("xor", 3)]:
    for l in [0, 1, 5, 16, 17, 33]:
        u("%s_%d" % (nm, l), "std_xor_vector" if op == 3 else "ieee_%s_vector" % nm, l, l, ["-DLOGIC=%d" % op, "-DASCENDING=1"])
        u("%s_sse_%d" % (nm, l), "ieee_%s_vector_sse41" % nm, l, l, ["-DLOGIC=%d" % op, "-DASCENDING=1"], slack=15)
for l in [0, 1, 9, 16, 17, 33]:
    u("x01_%d" % l, "std_to_x01", l, 0, ["-DTO_X01=1", "-DUNARY=1"])
    u("x01_sse_%d" % l, "std_to_x01_sse41", l, 0, ["-DTO_X01=1", "-DUNARY=1"], slack=15)
for l in [0, 1, 7, 8, 9, 17]:
    u("to_01_%d" % l, "ieee_to_01", l, 0, ["-DTO_01=1", "-DUNARY=1"])
    for n in [0, 1, 5, 9, 20]:
        for nm, sg in [("unsigned", 0), ("signed", 1)]:
            u("resize_%s_%d_%d" % (nm, l, n), "ieee_resize_" + nm, l, 0, ["-DRESIZE=%d" % n, "-DSIGNED=%d" % sg, "-DUNARY=1"])
for l in [0, 1, 7, 8, 12, 31, 32, 40]:
    u("plus_natural_%d" % l, "ieee_plus_unsigned_natural", l, 0, ["-DADDNAT=1", "-DUNARY=1"])
    u("natural_plus_%d" % l, "ieee_plus_natural_unsigned", l, 0, ["-DADDNAT=2", "-DUNARY=1"])
for l in [0, 1, 7, 8, 9, 31, 32, 33, 64, 70]:
    for nm, sg in [("unsigned", 0), ("signed", 1)]:
        u("to_%s_%d" % (nm, l), "ieee_to_" + nm, l, 0, ["-DTO_NUM=1", "-DSIGNED=%d" % sg, "-DUNARY=1"])
for l, r in [(0, 0), (0, 1), (1, 1), (5, 5), (5, 6), (16, 16), (20, 20), (32, 32), (33, 33)]:
    u("eq_%d_%d" % (l, r), "byte_vector_equal", l, r, ["-DBYTECMP=1"])
    u("eq_sse_%d_%d" % (l, r), "byte_vector_equal_sse41", l, r, ["-DBYTECMP=1"], slack=15)
for nm, sg, ad in [("plus_unsigned", 0, 1), ("plus_signed", 1, 1), ("minus_unsigned", 0, -1)]:
    for l, r in [(1, 1), (3, 5), (8, 8), (9, 7), (5, 17)]:
        u("syn_%s_%d_%d" % (nm, l, r), "synopsys_" + nm, l, r, ["-DSYNADD=%d" % ad, "-DSIGNED=%d" % sg])
    u("syn_%s_tlab" % nm, "synopsys_" + nm, 7, 9, ["-DSYNADD=%d" % ad, "-DSIGNED=%d" % sg], tlab=96)
for nm, sg in [("unsigned", 0), ("signed", 1)]:
    for l, r in [(1, 1), (3, 5), (8, 8), (9, 7)]:
        u("syn_eql_%s_%d_%d" % (nm, l, r), "synopsys_eql_" + nm, l, r, ["-DSYNCMP=1", "-DSIGNED=%d" % sg])
for l in [1, 7, 8, 9]:
    u("syn_plus_logic_%d" % l, "synopsys_plus_unsigned_logic", l, 0, ["-DSYNLOGIC=1", "-DUNARY=1"])
    u("syn_logic_plus_%d" % l, "synopsys_plus_logic_unsigned", l, 0, ["-DSYNLOGIC=2", "-DUNARY=1"])
for nm, s in [("consume", 0), ("shrink", 1)]:
    u("textio_" + nm, "std_textio_" + nm, 9, 0, ["-DSHRINK=%d" % s, "-DUNARY=1"])

import re
SLOW = re.compile(r"_6_5$|_24_3$|_16_16$|_33(_33)?$|_70$|_20_20$|(mul.*|plus.*|minus.*)_1_1$|(to_u.*|to_s.*|natural.*)_(31|33|40|64)$|minus_signed_(8_8|5_17)|plus_signed_8_8|"
                  r"(and|or|xor)(_sse)?_(1|5|16)$|(leq|greater)_(8_8|3_5)|resize_.*_(8|17)_|resize_.*_(1|9)_(1|9)$|syn_mul_.*_(2_3|4_4)|mul_.*_4_4|minus_.*_tlab|syn_plus_.*_tlab|x01(_sse)?_(1|16)$|eq(_sse)?_(0_0|1_1|16_16)$")
for x in UNITS:
    if SLOW.search(x["id"]):
        x["tier"] = "thorough"
