LEVEL = "proof"
def _u(name, d, fns, **k):
    return dict(id=name, file="h_mask.c", defs=["-D" + d, "-DMAXSIZE=256"], unwind=6, level="bounded",
                bound="set size 0..256 (1 to 4 words), all contents, all elements", functions=fns, **k)
UNITS = [
    _u("init", "OP_INIT", ["mask_init", "mask_free"]),
    _u("elem", "OP_ELEM", ["mask_test", "mask_set", "mask_clear", "mask_test_and_set"]),
    _u("range_set", "OP_RANGE=0", ["mask_set_range", "mask_for_range"]),
    _u("range_clear", "OP_RANGE=1", ["mask_clear_range", "mask_for_range"]),
    _u("range_test", "OP_RANGE=2", ["mask_test_range", "mask_for_range"]),
    _u("all", "OP_ALL", ["mask_setall", "mask_clearall"]),
    _u("popcount", "OP_POPCOUNT", ["mask_popcount"]),
    _u("binary", "OP_BINARY", ["mask_subtract", "mask_union", "mask_intersect", "mask_copy", "mask_eq"]),
    _u("scan", "OP_SCAN", ["mask_scan_backwards"]),
    _u("count_clear", "OP_COUNTCLEAR", ["mask_count_clear"]),
    _u("iter", "OP_ITER", ["mask_iter"]),
]
def _i(name, d, fns, **k):
    return dict(id=name, file="h_mask_ind.c", defs=["-D" + d], loops=True, native=False, weight=5,
                functions=fns, timeout=400, **k)
UNITS += [
    _i("ind_range_set", "OP_RANGE=0", ["mask_set_range"], twin="range_set"),
    _i("ind_range_clear", "OP_RANGE=1", ["mask_clear_range"], twin="range_clear"),
    _i("ind_range_test", "OP_RANGE=2", ["mask_test_range"], twin="range_test"),
    _i("ind_subtract", "OP_BINARY=0", ["mask_subtract"], twin="binary"),
    _i("ind_union", "OP_BINARY=1", ["mask_union"], twin="binary"),
    _i("ind_intersect", "OP_BINARY=2", ["mask_intersect"], twin="binary"),
    _i("ind_copy", "OP_BINARY=3", ["mask_copy"], twin="binary"),
    _i("ind_scan", "OP_SCAN", ["mask_scan_backwards"], twin="scan"),
    _i("ind_count_clear", "OP_COUNTCLEAR", ["mask_count_clear"], twin="count_clear"),
    _i("ind_iter", "OP_ITER", ["mask_iter"], twin="iter"),
]
