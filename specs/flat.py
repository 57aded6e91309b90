_q = "start sizes 0..{n}, then every sequence of {o} of 20 operations; keys and values are solver variables (all orderings and coincidences)"
for e, what in [("vector", "std::vector"), ("cmp", "std::vector and a stateful order"), ("static", "static_vector"), ("small", "small_vector")]:
    unit("C07", e, "flat_map.cpp", "fm_" + e, f"flat_map over {what}: " + _q.format(n=2, o=2), shards=4, time=60, params=dict(n=2, ops=2))
unit("C07", "vector_4", "flat_map.cpp", "fm_vector", "flat_map over std::vector: " + _q.format(n=4, o=1), shards=2, time=60, params=dict(n=4, ops=1))
unit("C07", "build", "flat_map.cpp", "fm_build", "every constructor from 0..4 unsorted pairs, three orders, then one operation", shards=4, time=60)
unit("C07", "swap", "flat_map.cpp", "fm_swap", "two maps of 0..2 elements, different orders", shards=1, time=60)
_q = _q.replace("20", "18").replace("keys and values", "elements")
for e, what in [("vector", "std::vector"), ("cmp", "std::vector and a stateful order"), ("static", "static_vector"), ("small", "small_vector")]:
    unit("C08", e, "flat_set.cpp", "fs_" + e, f"flat_set over {what}: " + _q.format(n=2, o=2), shards=4, time=60, params=dict(n=2, ops=2))
unit("C08", "vector_4", "flat_set.cpp", "fs_vector", "flat_set over std::vector: " + _q.format(n=4, o=1), shards=2, time=60, params=dict(n=4, ops=1))
unit("C08", "build", "flat_set.cpp", "fs_build", "every constructor from 0..4 unsorted elements, three orders, then one operation", shards=4, time=60)
unit("C08", "swap", "flat_set.cpp", "fs_swap", "two sets of 0..2 elements, different orders", shards=1, time=60)
unit("C07", "deque", "flat_map.cpp", "fm_deque", "flat_map over std::deque and a stateful order: start sizes 0..2, then one of 20 operations", shards=2, time=60, params=dict(n=2, ops=1))
unit("C08", "deque", "flat_set.cpp", "fs_deque", "flat_set over std::deque and a stateful order: start sizes 0..2, then one of 18 operations", shards=2, time=60, params=dict(n=2, ops=1))
unit("C07", "reserve", "flat_map.cpp", "fm_reserve", "sizes 0..3, reserving up to 4, filling what was reserved", time=60, params=dict(cap=5), thorough=dict(params=dict(cap=7)))
unit("C08", "reserve", "flat_set.cpp", "fs_reserve", "sizes 0..3, reserving up to 4, filling what was reserved", time=60, params=dict(cap=5), thorough=dict(params=dict(cap=7)))
for p, e in (("C07", "flat_map.cpp"), ("C08", "flat_set.cpp")):
    unit(p, "part", e, "fm_part" if p == "C07" else "fs_part", "sizes 0..3, every call with a key of another type to which any number of elements are equivalent", time=60, params=dict(n=3), thorough=dict(params=dict(n=5)))
A["C07"] = ["which of several elements equivalent to a key of another type is found or erased, and whether count and erase take one or all of them, is left open", "keys which are converted when inserted compare like the converted key"]
A["C08"] = A["C07"]
for p, e, x in (("C07", "flat_map.cpp", "fm"), ("C08", "flat_set.cpp", "fs")):
    unit(p, "big", e, x + "_big", "7, 8, 15, 16 or 17 elements put in in three orders, three comparators, one operation with every key", shards=4, time=60, thorough=dict(params=dict(ops=2), shards=8, time=600))
    unit(p, "big_build", e, x + "_big_build", "9, 16, 17 or 20 unsorted elements, in two orders, with duplicates or not, one of them with every key", shards=4, time=60)
for p, e, x in (("C07", "flat_map.cpp", "fm"), ("C08", "flat_set.cpp", "fs")):
    unit(p, "own", e, x + "_own", "sizes 0..3, three orders, calls with (keys of) own elements and keys which are given up only if inserted", thorough=dict(params=dict(n=6)))
    unit(p, "input", e, x + "_input", "0..4 unsorted elements from a single pass range, three orders", thorough=dict(params=dict(n=5)))
    for n, w in (("", "std::vector"), ("_static", "static_vector"), ("_small", "small_vector")):
        unit(p, "throw" + n, e, x + "_throw" + n, f"over {w}: sizes 0..3, one call, any of the first 7 constructions or comparisons throws", shards=2, reach=("end", "threw"))
