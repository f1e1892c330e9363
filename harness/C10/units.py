import sys, os, re, random
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "..", "lib"))
from xforms import JIT_PRIV, MIX_BITS
LEVEL = "bounded"
DEFAULTS = dict(unwind=60, flags=["--no-standard-checks", "--unwinding-assertions"], file="h_prog.c", xform=dict(JIT_PRIV, **MIX_BITS), level="bounded", solver="cadical",
                bound="the listed program structures, for all argument and immediate values in the stated range",
                functions=["jit_do_mem2reg", "jit_do_lvn", "jit_do_cprop", "jit_do_dce", "jit_delete_nops"])
UNITS = []
OUT = os.path.join(HERE, "..", "..", "out")
os.makedirs(OUT, exist_ok=True)

MACROS = "COPY GALLOC EXIT FEXP EXP BZERO GETPRIV PUTPRIV LALLOC SALLOC CASE TRIM MOVE MEMSET REEXEC SADD".split()
NORES = "SEND CMP CCMP FCMP FCCMP JUMP RET EXIT CALL STORE NOP".split()
SIZES = {"8": "JIT_SZ_8", "16": "JIT_SZ_16", "32": "JIT_SZ_32", "64": "JIT_SZ_64"}

def assemble(text):
    ins, labels = [], {}
    for line in re.split(r"[;\n]", text):
        line = line.strip()
        if not line:
            continue
        m = re.match(r"(\w+):\s*(.*)", line)
        if m:
            labels[m.group(1)] = len(ins)
            line = m.group(2)
        ins.append(line.split())
    out = []
    def arg(f, a):
        if a is None: return "Z(%s)" % f
        if a[0] in "r#v@pxh":
            k = "RIVLPXH"["r#v@pxh".index(a[0])]
            return "%s(%s, %s)" % (k, f, labels[a[1:]] if k == "L" else a[1:])
        m = re.match(r"\[r(\d+)(?:\+(\d+))?\]", a)
        return "M(%s, %s, %s)" % (f, m.group(1), m.group(2) or 0)
    nregs = 0
    for i, t in enumerate(ins):
        parts = t[0].upper().split(".")
        op, size, cc = parts[0], "JIT_SZ_UNSPEC", "JIT_CC_NONE"
        for p in parts[1:]:
            if p in SIZES: size = SIZES[p]
            else: cc = "JIT_CC_" + p
        args = t[1:]
        res = "JIT_REG_INVALID"
        if op not in NORES:
            res = args.pop(0)[1:]
            nregs = max(nregs, int(res) + 1)
        args += [None] * 2
        out.append("SET(%d, %s, %s, %s, %d, %s, %s, %s);" % (i,
            ("MACRO_" if op in MACROS else "J_") + op, size, cc, i in labels.values(), res,
            arg("arg1", args[0]), arg("arg2", args[1])))
    return len(ins), nregs, out

def unit(name, progs, *defs, lo=-100, hi=100, split=6, **k):
    if len(progs) > split:
        parts = -(-len(progs) // split)
        for q in range(parts):
            unit("%s_%d" % (name, q + 1), progs[q::parts], *defs, lo=lo, hi=hi, **k)
        return
    asm = [assemble(p) for p in progs]
    n = max(a[0] for a in asm)
    path = os.path.join(OUT, "C10-%s.inc" % name)
    text = ""
    for pi, (ni, nr, lines) in enumerate(asm):
        text += "static void prog%d(const int64_t *args)\n{\n   %s\n   check(%d, %d, args);\n}\n" % (
            pi, "\n   ".join(lines), ni, nr)
    text += "#define PROGS(args) " + " ".join("prog%d(args);" % q for q in range(len(asm))) + "\n"
    if not os.path.exists(path) or open(path).read() != text:
        open(path + ".%d" % os.getpid(), "w").write(text)
        os.replace(path + ".%d" % os.getpid(), path)
    UNITS.append(dict(id=name, defs=["-DPROGRAMS=\"%s\"" % os.path.abspath(path), "-DMAXI=%d" % n,
                                     "-DLO=(%d)" % lo, "-DHI=(%d)" % hi] + list(defs), **k))

HEAD = "recv r0 #0; recv r1 #1; recv r2 #2;"

# --- constant folding and peepholes: both operand orders, repeats and constants
# reached through a register, so that value numbering may only merge what is
# equal, with and without a flag result
def forms(op, flags, pairs, un=False):
    ps = []
    def prog(c, d, combos):
        t = HEAD + "mov r3 #%s; mov r4 r0;" % c
        r = 5
        sends = []
        for x in combos:
            t += "%s r%d %s;" % (op, r, " ".join(x))
            sends.append(r)
            r += 1
            if flags:
                t += "cset r%d;" % r
                sends.append(r)
                r += 1
        for k, x in enumerate(sends):
            t += "send #%d r%d;" % (k, x)
        ps.append(t + "ret")
    for n, (c, d) in enumerate(pairs):
        C, D = "#%s" % c, "#%s" % d
        if un:
            prog(c, d, [("r0",), (C,), ("r3",), ("r4",)])
            continue
        if n == 0:
            prog(c, d, [("r0", "r1"), ("r1", "r0"), ("r4", "r1")])
        prog(c, d, [("r0", C), (C, "r1"), (C, D)])
        prog(c, d, [("r3", D), ("r1", "r3")])
    return ps

I8 = [(0, 1), (1, -1), (3, 2), (127, 1), (-128, -1)]
I32 = [(0, 1), (1, -1), (3, 5), ("INT32_MAX", 1), ("INT32_MIN", -1)]
U8 = [(0, 1), (1, 1), (200, 56), (255, 255), (3, 7)]
W = [(0, 1), (1, 0), (2, 3), (-1, 64), (5, 5), ("INT64_MAX", 1)]
for op in "add sub".split():
    unit("fold_" + op, forms(op, False, W))
    unit("fold_%s_o8" % op, forms("%s.o.8" % op, True, I8), lo=-128, hi=127)
    unit("fold_%s_o32" % op, forms("%s.o.32" % op, True, I32), lo=-2**31, hi=2**31 - 1)
    unit("fold_%s_c8" % op, forms("%s.c.8" % op, True, U8), lo=0, hi=255)
unit("fold_mul", forms("mul", False, W + [(8, 3), (100, 64), (-8, 128)]), lo=-9, hi=9)
unit("fold_mul_o8", forms("mul.o.8", True, I8 + [(8, 3)]), lo=-128, hi=127)
unit("fold_xor", forms("xor", False, W))
unit("fold_and", forms("and", False, W))
unit("fold_or", forms("or", False, W))
SH = [(0, 1), (1, 63), (63, 0), (5, 2)]
unit("fold_asr", forms("asr", False, SH), lo=0, hi=63)
unit("fold_shl", forms("shl", False, SH), lo=0, hi=63)
unit("fold_un", [p for op in "neg clamp not".split() for p in forms(op, False, [(0, 1), (-5, 100), (7, -1)], True)])
DV = [(1, 1), (-1, 2), (7, -3), (5, 5)]
unit("fold_div", forms("div", False, DV), lo=1, hi=9)
unit("fold_rem", forms("rem", False, DV), lo=1, hi=9)
unit("fold_exp", ["recv r0 #0; mov r1 #2; exp r2 #2 r0; exp r3 r1 r0; exp r4 #3 #4; mov r5 #5; exp r6 r5 #3; send #0 r2; send #1 r3; send #2 r4; send #3 r6; ret"],
     "-DEXPTYPE=int64_t", "-DEXPACC=__int128", "-DEXPBITS=64", lo=0, hi=62, unwind=70)

# --- registers assigned more than once, as promoted variables are
def redef(c, pad):
    # tmp := v; v := c; w := c  and variations; pad moves the table positions
    t = HEAD + "".join("mov r%d #%d;" % (10 + i, 11 + i) for i in range(pad))
    t += ("mov r3 r0; mov r0 #{c}; mov r4 #{c}; add r5 r3 r1; add r6 r0 r1; add r7 r4 r1; mov r1 r2; add r8 r0 r1;"
          "send #0 r3; send #1 r4; send #2 r5; send #3 r6; send #4 r7; send #5 r8; send #6 r1;").format(c=c)
    t += "".join("send #%d r%d;" % (8 + i, 10 + i) for i in range(min(pad, 8)))
    return t + "ret"
for n, cs in enumerate(([(0, 0), (1, 0)], [(5, 0), (8, 0)], [(8, 3), (23, 6)], [(120, 2), (-1, 1)])):
    unit("redef_%d" % n, [redef(*x) for x in cs])
# repeated assignment under table pressure
unit("redef_full", [HEAD + "".join("mov r%d #%d;" % (3 + i % 5, 200 + i) for i in range(26)) +
                    "".join("send #%d r%d;" % (i, 3 + i) for i in range(5)) + "ret",
                    HEAD + "".join("mov r%d r%d;" % (3 + i % 4, i % 3) for i in range(9)) + "add r8 r3 r4; mov r3 r5; add r9 r3 r4;" +
                    "send #0 r8; send #1 r9; send #2 r3; send #3 r4; send #4 r5; send #5 r6; ret"])
unit("swap", [HEAD + "mov r3 r0; mov r0 r1; mov r1 r3; sub r4 r0 r1; sub r5 r1 r0; send #0 r4; send #1 r5; send #2 r0; send #3 r1; ret",
              HEAD + "mov r3 r0; mov r4 r3; mov r3 r1; mov r5 r4; mov r4 r2; add r6 r3 r4; add r7 r5 r0; send #0 r3; send #1 r4; send #2 r5; send #3 r6; send #4 r7; ret"])

# --- flags: comparison results known and unknown, chained, selected, branched on
CC = "EQ NE LT GT LE GE".split()
for cc in CC:
    unit("flag_" + cc.lower(), [
        HEAD + "cmp.%s r0 r1; cset r3; cmp.%s #3 #4; cset r4; csel r5 r0 r1; send #0 r3; send #1 r4; send #2 r5; ret" % (cc, cc),
        HEAD + "mov r6 #4; cmp.%s r6 #4; ccmp.%s r0 r1; cset r3; cmp.%s r0 #5; ccmp.LT r1 r6; csel r4 r0 r1; send #0 r3; send #1 r4; ret" % (cc, cc, cc),
        HEAD + "cmp.%s #5 #4; jump.T @A; send #0 #1; jump @B; A: send #0 #2; B: send #1 r0; ret" % cc,
        HEAD + "cmp.%s r0 r1; jump.F @A; send #0 #1; jump @B; A: send #0 #2; jump @B; B: cmp.%s r1 r2; cset r3; send #1 r3; ret" % (cc, cc)])
unit("flag_arith", [
    HEAD + "add.o.32 r3 r0 r1; jump.F @A; send #0 r0; exit x3; A: add.o.32 r4 r3 #1; jump.F @B; send #0 #9; exit x4; B: send #0 r4; ret",
    HEAD + "cmp.GT r0 #0; jump.F @Z; mov r5 #5; add.o.32 r3 r5 #3; jump.F @A; exit x3; A: send #0 r3; ret; Z: send #0 #1; ret",
    HEAD + "cmp.GT r0 #0; jump.F @Z; mov r5 #5; sub.o.32 r3 r0 #0; jump.F @A; exit x3; A: send #0 r3; ret; Z: send #0 #1; ret",
    HEAD + "cmp.EQ r0 r1; sub.o.8 r3 r0 #1; jump.F @A; exit x3; A: cmp.LT r3 r1; cset r4; cmp.LT r3 r2; cset r5; send #0 r4; send #1 r5; ret"],
    lo=-128, hi=127)

# --- control flow: joins, jumps to jumps, dead code, case dispatch
for cc in "EQ", "LT", "GT":
    unit("join_" + cc.lower(), [
        HEAD + "cmp.%s r0 r1; jump.T @A; mov r3 r0; mov r4 #1; jump @B; A: mov r3 r1; mov r4 #2; B: add r5 r3 r2; add r6 r4 r2; send #0 r5; send #1 r6; send #2 r3; ret" % cc,
        HEAD + "mov r3 #1; mov r4 r0; cmp.%s r0 r1; jump.F @A; mov r3 #2; mov r4 r1; A: add r5 r3 #0; add r6 r4 #1; send #0 r5; send #1 r6; send #2 r4; ret" % cc,
        HEAD + "add r3 r0 r1; cmp.%s r0 r1; jump.T @A; add r4 r0 r1; mov r0 r2; jump @B; A: mov r4 #7; B: add r5 r0 r1; send #0 r3; send #1 r4; send #2 r5; ret" % cc,
        HEAD + "mov r3 #0; cmp.%s r0 r1; jump.T @A; send #0 #1; ret; A: jump @B; mov r3 #9; B: send #0 #2; send #1 r3; ret" % cc,
        HEAD + "cmp.%s r0 r1; jump.T @A; mov r3 r0; A: cmp.%s r1 r2; jump.F @B; mov r0 r1; B: jump @C; mov r0 #3; C: send #0 r0; ret" % (cc, cc),
        HEAD + "cmp.%s #3 #4; jump.F @A; jump @B; A: send #0 r1; ret; B: mov r3 #4; cmp.%s r3 #4; jump.T @C; send #0 r0; ret; C: send #0 r2; ret" % (cc, cc)])
unit("case", [
    HEAD + "mov r3 #1; case r0 #3 @A; case r0 #-5 @B; case r0 r1 @C; send #0 #1; ret; A: mov r3 #5; send #0 r3; ret; B: send #0 #2; ret; C: send #0 r1; send #1 r3; ret",
    HEAD + "mov r3 r0; mov r0 #4; case r3 #3 @A; mov r4 r3; case r4 #4 @B; send #0 r0; ret; A: add r5 r3 #1; send #0 r5; ret; B: send #0 r3; ret"])
unit("exit", [
    HEAD + "cmp.GT r0 #5; jump.T @A; send #0 #4; send #1 r1; exit x2; A: mov r3 r0; mov r0 #2; cmp.GT r1 r3; jump.F @B; send #0 r3; exit x4; B: send #0 r0; ret",
    HEAD + "cmp.EQ r0 r0; cset r3; cmp.NE r0 r0; cset r4; cmp.LE r1 r1; cset r5; cmp.LT r1 r1; cset r6; send #0 r3; send #1 r4; send #2 r5; send #3 r6; ret",
    HEAD + "cmp.EQ r0 r1; cmp.LT r0 r1; cset r3; cmp.GT r0 r1; cmp.EQ r1 r2; ccmp.LT r0 r1; cset r4; add r5 r3 r4; cmp.NE r2 r1; jump.T @A; send #0 r5; ret; A: send #0 r3; send #1 r4; ret"])
LOOP = ["-DLOOPS", "-DARG0=2"]
unit("loop", [
    HEAD + "mov r3 #0; mov r4 #0; T: cmp.GE r3 r0; jump.T @E; add r4 r4 r1; add r3 r3 #1; jump @T; E: send #0 r4; send #1 r3; ret",
    HEAD + "mov r3 #0; mov r4 #0; mov r5 r1; T: add r6 r4 r5; mov r4 r6; mov r5 r2; add r3 r3 #1; cmp.LT r3 r0; jump.T @T; send #0 r4; send #1 r5; send #2 r3; ret",
    HEAD + "mov r3 r1; mov r4 r2; mov r7 #0; T: mov r5 r3; mov r3 r4; mov r4 r5; add r7 r7 #1; cmp.NE r7 #3; jump.T @T; sub r6 r3 r4; send #0 r6; send #1 r3; ret"],
    *LOOP, "-DSTEPS=36")
# --- argument slots and calls
unit("call", [
    HEAD + "send #0 r0; send #1 r1; call h7; recv r3 #0; recv r4 #1; add r5 r3 r4; send #0 r0; send #1 r5; send #2 r2; ret",
    HEAD + "send #0 r1; send #1 r0; call h7; recv r3 #0; send #0 r3; send #1 r3; call h8; recv r4 #0; recv r5 #1; send #0 r4; send #1 r5; send #2 r3; ret",
    HEAD + "add r3 r0 r1; send #0 r3; call h7; recv r4 #0; recv r6 #0; add r5 r0 r1; sub r7 r4 r5; send #0 r7; send #1 r6; ret",
    HEAD + "recv r3 #0; recv r4 #0; cmp.EQ r0 #1; jump.T @A; send #0 r1; call h3; A: recv r5 #0; recv r6 #1; add r7 r3 r4; send #0 r5; send #1 r6; send #2 r7; ret",
    "recv r0 #8; recv r1 #9; recv r2 #7; mov r3 r1; send #8 r2; send #9 r3; send #7 r0; call h4; recv r4 #8; recv r5 #7; send #0 r4; send #1 r5; ret",
    HEAD + "send #0 r1; send #1 r2; send #2 r0; ret"] + [
    # a value taken from any slot before and after a call
    HEAD + "recv r3 #%d; add r4 r3 #1; call h7; recv r5 #%d; add r6 r5 #1; send #0 r4; send #1 r6; ret" % (k, k) for k in range(9)], lo=-8, hi=7)
# --- stack variables and block fills (frame at 1000, object at the third argument)
MEM = ["-DFRAMESZ=32", "-DBC_MEM=8"]
def vari(sz, pad):
    n = int(sz) // 8
    return [
        HEAD + "salloc r3 #0 #%d; salloc r4 #8 #%d; store.%s r0 r3; load.%s r5 r3; store.%s r1 r3; load.%s r6 r3; store.%s r5 r4; load.%s r7 r4; send #0 r5; send #1 r6; send #2 r7; ret" % ((n, n) + (sz,) * 6),
        HEAD + "salloc r3 #0 #%d; salloc r4 #8 #16; salloc r5 #24 #%d; store.%s r0 r3; store.%s r1 [r4+8]; store.%s r1 r5; cmp.LT r0 r1; jump.T @A; store.%s #5 r3; A: load.%s r6 r3; load.%s r7 [r4+8]; load.%s r8 r5; send #0 r6; send #1 r7; send #2 r8; ret" % ((n, n) + (sz,) * 7),
        HEAD + "salloc r3 #0 #%d; store.%s r0 r3; load.%s r5 r3; store.%s #3 r3; uload.%s r6 r3; lea r7 [r3+0]; store.%s r1 [r7+0]; load.%s r8 r3; send #0 r5; send #1 r6; send #2 r8; ret" % ((n,) + (sz,) * 6)]
for sz in "8 16 32 64".split():
    unit("var_" + sz, vari(sz, 0), *MEM, lo=-100, hi=100)
def fills(sz, vals):
    ps = []
    n = int(sz) // 8
    for v in vals:
        for k in (1, 2, 4, 8, 5, 3, 0):
            if k % n: continue
            ps.append(HEAD + "mov r3 #%d; memset.%s r3 [r2+0] #%s; load.8 r4 [r2+1]; send #0 r4; send #1 r3; ret" % (k, sz, v))
    return ps
unit("fill_8", fills("8", [0, 1, 200]), *MEM, split=8)
unit("fill_16", fills("16", [0, 1, 257, -2, -1]), *MEM, split=8)
unit("fill_32", fills("32", [0, 7, 16843009, -2, -1]), *MEM, split=8)
unit("fill_64", fills("64", [0, 5, -2]), *MEM)
unit("fill_var", [HEAD + "mov r3 #4; mov r4 #-3; memset.16 r3 [r2+2] r4; mov r3 #2; memset.8 r3 [r2+0] r0; mov r5 r3; send #0 r3; send #1 r5; ret",
                  HEAD + "mov r3 r0; memset.16 r3 [r2+2] #-3; send #0 r0; send #1 r3; ret",
                  HEAD + "mov r3 #4; memset.32 r3 [r2+0] r1; mov r4 #4; memset.32 r4 [r2+4] r0; send #0 r4; ret"], *MEM, lo=0, hi=6)
unit("zero", [HEAD + "mov r3 #%d; bzero r3 [r2+%d]; mov r4 r3; add r5 r3 #1; send #0 r4; send #1 r5; ret" % x
              for x in ((0, 1), (1, 0), (2, 1), (4, 2), (8, 0), (3, 4), (5, 2))] +
             [HEAD + "bzero r0 [r2+0]; mov r3 r0; mov r0 #2; bzero r0 [r2+6]; send #0 r3; send #1 r0; ret"], *MEM, lo=0, hi=5, split=8)
unit("copy", [HEAD + "mov r3 #%d; %s r3 [r2+%d] p%d; mov r4 r3; send #0 r4; ret" % (k, o, d, q)
              for k, d, q in ((0, 0, 0), (1, 1, 3), (2, 6, 1), (4, 0, 4), (8, 0, 5), (3, 2, 8)) for o in ("copy", "move")][::2] +
             [HEAD + "mov r3 #2; move r3 [r2+1] [r2+0]; mov r4 #4; copy r4 [r2+4] [r2+0]; copy r0 [r2+0] p0; send #0 r0; ret",
              HEAD + "mov r3 #4; copy r3 [r2+0] p4; mov r5 #3; memset.8 r5 [r2+3] #9; mov r6 #3; move r6 [r2+2] [r2+1]; load.16 r7 [r2+3]; send #0 r7; ret"],
     *MEM, "-DPOOL", lo=0, hi=4, split=8)
