# Rewrites applied to a header only in the text given to the verifier, because
# CBMC does not constant-propagate enumeration bit-fields (the interpreter's
# dispatch switch would otherwise fan out on every instruction).  Dropped:
# only the bit-field widths; every in-range value has the same representation.
JIT_PRIV = {"jit/jit-priv.h": [
    (r"^( *)jit_op_t( +)op : 8;", r"\1uint8_t op;"),
    (r"^( *)jit_size_t( +)size : 3;", r"\1uint8_t size;"),
    (r"^( *)unsigned( +)target : 1;", r"\1uint8_t target;"),
    (r"^( *)jit_cc_t( +)cc : 4;", r"\1uint8_t cc;"),
    (r"^( *)jit_value_kind_t kind : 8;", r"\1uint8_t kind;"),
]}
# The interpreter's register file and frame are variable-length arrays; for
# the hard arithmetic units they get a constant size (8), which is at least
# what the programs under check declare.
JIT_FIXED_REGS = {"jit/jit-interp.c": [
    (r"jit_scalar_t regs\[f->nregs \+ 1\]", "jit_scalar_t regs[8]"),
    (r"unsigned char frame\[f->framesz \+ 1\]", "unsigned char frame[8]"),
]}
# CBMC 6.11 aborts on a statement expression whose value is a compound
# assignment; the value is named explicitly instead.
MIX_BITS = {"util.h": [
    (r"(__n \*= 0x1b873593;)( +)\\", r"\1 __n;\2\\"),
    (r"(__n \^= \(__n >> 33\);)( +)\\\n( +\}\))", r"\1 __n;\2\\\n\3"),
]}
# The alternatives of a signal source share storage; CBMC loses constants
# through the union, so the alternatives are laid side by side instead (each
# source only ever uses the alternative named by its tag).
RT_SOURCE = {"rt/structs.h": [
    (r"union \{(\s+rt_port_t   port;\s+rt_driver_t driver;\s+rt_pseudo_t pseudo;\s+\} u;)", r"struct {\1"),
    (r"^STATIC_ASSERT\(sizeof\(rt_(source|nexus|signal)_t\).*$", r""),
]}

# The runtime's permanent allocations come from objects provided by the
# harness (env_alloc) instead of one large mapped block of bytes: the body of
# static_alloc is bypassed, its callers are unchanged.
RT_ALLOC = {"rt/model.c": [
    (r"(static void \*static_alloc\(rt_model_t \*m, size_t size\)\s*\{)", r"void *env_alloc(size_t);\n\1 return env_alloc(size);"),
]}
