import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "..", "lib"))
from xforms import JIT_PRIV, JIT_FIXED_REGS
LEVEL = "proof"
DEFAULTS = dict(unwind=20, file="h_op.c", xform=JIT_PRIV, drop=["interp_dump"])
HARD = dict(xform=dict(JIT_PRIV, **JIT_FIXED_REGS), solver="cvc5", weight=5)
UNITS = []
def u(name, op, *defs, **k):
    fn = op.replace("J_", "").replace("MACRO_", "").lower()
    k.setdefault("functions", ["interp_" + fn, "interp_loop", "jit_interp"])
    UNITS.append(dict(id=name, defs=["-DJOP=" + op] + list(defs), **k))
for op in "AND OR XOR NOT NEG MOV CLAMP CSET CSEL SHL ASR NOP DEBUG".split():
    u(op.lower(), "J_" + op)
for op in "CMP CCMP FCMP FCCMP".split():
    u(op.lower(), "J_" + op, "-DCCS")
for op in "FNEG SCVTF".split():
    u(op.lower(), "J_" + op, "-DISREAL")
for op in "ADD SUB".split():
    for cc in "NONE O C".split():
        u("%s_%s" % (op.lower(), cc.lower()), "J_" + op, "-DCCONLY=JIT_CC_" + cc)
# Expensive arithmetic: operands in registers, one size at a time
for op in "FADD FSUB FMUL FDIV".split():
    u(op.lower(), "J_" + op, "-DISREAL", "-DOPIMM=0", **HARD)
for op in "DIV REM".split():
    u(op.lower(), "J_" + op, "-DOPIMM=0", **HARD)
u("fcvtns", "J_FCVTNS", "-DOPIMM=0", weight=9)
u("mul_none", "J_MUL", "-DCCONLY=JIT_CC_NONE", "-DOPIMM=0", **HARD)
for cc, pre in ("O", ""), ("C", "u"):
    for sz in 8, 16, 32:
        u("mul_%s_%d" % (cc.lower(), sz), "J_MUL", "-DCCONLY=JIT_CC_" + cc, "-DOPSZ=JIT_SZ_%d" % sz, "-DOPIMM=0",
          "-DMULTYPE=%sint%d_t" % (pre, sz * 2), "-DHALFTYPE=%sint%d_t" % (pre, sz), **HARD)
    u("mul_%s_64" % cc.lower(), "J_MUL", "-DCCONLY=JIT_CC_" + cc, "-DOPSZ=JIT_SZ_64", "-DOPIMM=0", **HARD)
    def exp(name, sz, *d, solver="cadical", acc="int64_t", **k):
        u("exp_%s_%s" % (cc.lower(), name), "MACRO_EXP", "-DCCONLY=JIT_CC_" + cc, "-DOPSZ=JIT_SZ_%d" % sz, "-DOPIMM=0",
          "-DEXPTYPE=%sint%d_t" % (pre, sz), "-DEXPBITS=%d" % sz, "-DEXPACC=" + acc, *d,
          **dict(HARD, solver=solver, unwind=sz + 34 if sz > 32 else 40, weight=8, **k))
    ALLB = ["-DBLO=0", "-DBHI=0x7fffffff"]
    exp("8", 8, *ALLB)
    exp("16", 16, *ALLB, tier="thorough", timeout=600)
    for x in (2, 3, 7, 10) + ((-1, -2, -10) if not pre else ()):
        exp("32_x%s" % str(x).replace("-", "m"), 32, "-DACONST=%d" % x, *ALLB, level="bounded",
            bound="base %d, every exponent below 2**31" % x)
    for y in (0, 1, 2) + ((3,) if pre else ()):
        exp("32_y%d" % y, 32, "-DBCONST=%d" % y, solver="cvc5", level="bounded", bound="exponent %d, every base" % y)
    exp("64_y2", 64, "-DBCONST=2", solver="cvc5", acc="__int128", level="bounded", bound="exponent 2, every base")
    exp("64_x3", 64, "-DACONST=3", *ALLB, acc="__int128", level="bounded", bound="base 3, every exponent below 2**31")

u("div_min", "J_DIV", "-DOPIMM=0", "-DACONST=INT64_MIN", "-DBCONST=-1", "-DMINDIV", known="div-min",
  flags=["--signed-overflow-check"])
u("rem_min", "J_REM", "-DOPIMM=0", "-DACONST=INT64_MIN", "-DBCONST=-1", "-DMINDIV", known="div-min",
  flags=["--signed-overflow-check"])
def m(name, fn, *defs, **k):
    UNITS.append(dict(id=name, file="h_mem.c", defs=list(defs), functions=[fn, "interp_loop", "jit_interp"], **k))
for w in 1, 2, 4, 8:
    W = ["-DWIDTH=%d" % w, "-DSZ=JIT_SZ_%d" % (w * 8)]
    m("store%d" % (w * 8), "interp_store", "-DT_STORE", *W)
    m("load%d" % (w * 8), "interp_load", "-DT_LOAD=J_LOAD", *W)
    m("uload%d" % (w * 8), "interp_uload", "-DT_LOAD=J_ULOAD", *W)
    m("memset%d" % (w * 8), "interp_memset", "-DT_MEMSET", *W, level="bounded", bound="up to 16 bytes")
    m("sadd%d" % (w * 8), "interp_sadd", "-DT_SADD", *W)
m("lea", "interp_lea", "-DT_LEA")
m("copy", "interp_copy", "-DT_COPY=MACRO_COPY", level="bounded", bound="up to 8 bytes")
m("move", "interp_move", "-DT_COPY=MACRO_MOVE", level="bounded", bound="up to 8 bytes")
m("bzero", "interp_bzero", "-DT_BZERO", level="bounded", bound="up to 8 bytes")
for cc in "NONE T F".split():
    m("jump_" + cc.lower(), "interp_jump", "-DT_JUMP=JIT_CC_" + cc, flags=["--paths", "lifo"])
m("case", "interp_case", "-DT_MCASE", flags=["--paths", "lifo"])
m("trim", "interp_trim", "-DT_TRIM")
