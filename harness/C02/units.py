LEVEL = "other"
EXPLANATION = ("Contracts of the time-ordered queue discharged by CBMC for each queue size separately; "
               "complete for every key/payload within the stated size, not a proof for larger queues.")

def _u(name, op, fns, n, **k):
    return dict(id="%s_%02d" % (name, n), file="h_heap.c", defs=["-DOP=%d" % op, "-DSIZE=%d" % n],
                unwind=n + 3, unwindset=["min_heapify.0:6", "heap_decrease_key.0:6"],
                level="bounded", solver="cadical", weight=n, functions=fns,
                bound="queues of exactly %d entries, all keys and payloads" % n, **k)

INS = ["heap_insert", "heap_decrease_key"]
EXT = ["heap_extract_min", "heap_min", "heap_min_key", "min_heapify"]
DEL = ["heap_delete", "heap_decrease_key", "min_heapify"]
UNITS = [_u("insert", 0, INS, n) for n in range(0, 16)]
UNITS += [_u("extract", 1, EXT, n, tier="quick" if n <= 9 else "thorough") for n in range(1, 14)]
UNITS += [_u("delete", 2, DEL, n, tier="quick" if n <= 6 else "thorough") for n in range(0, 9)]
UNITS += [_u("walk", 3, ["heap_walk", "heap_new"], 7)]
