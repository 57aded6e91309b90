for cap, rev in [(2, 0), (2, 2), (3, 4)]:
    d = [f"CAP={cap}", f"REV={rev}"]; q = f"small_vector<.,{cap},{rev}>"
    B = f"{q}: start sizes 0..{'3'}, internal or heap storage, then every sequence of 2 of 28 operations (all valid positions, counts up to 2, sizes up to {cap+2}); element values are solver variables"
    unit("C03", f"values_{cap}_{rev}", "small_vector.cpp", "smv_values", B, defs=d, shards=8, time=60)
    unit("C03", f"ctors_{cap}_{rev}", "small_vector.cpp", "smv_ctors", f"{q}: every constructor, sizes 0..4, one operation", defs=d, shards=2, time=60)
    unit("C04", f"life_{cap}_{rev}", "small_vector.cpp", "smv_life", B + "; elements check their lifetime, the allocator its blocks", defs=d, shards=8, time=60)
    unit("C04", f"life_ctors_{cap}_{rev}", "small_vector.cpp", "smv_life_ctors", f"{q}: every constructor, sizes 0..4, one operation", defs=d, shards=2, time=60)
    unit("C04", f"noalloc_{cap}_{rev}", "small_vector.cpp", "smv_noalloc", f"{q}: two operations needing at most the static capacity", defs=d, shards=2, time=60)
    unit("C04", f"revert_{cap}_{rev}", "small_vector.cpp", "smv_revert", f"{q}: sizes 0..{cap+3}, one shrinking operation", defs=d, shards=1, time=60, reach=("end", "reverted") if rev else ("end",))
    unit("C04", f"allocs_{cap}_{rev}", "small_vector.cpp", "smv_allocs", f"{q}: two vectors with unequal allocators, sizes 0..{cap+2}", defs=d, shards=1, time=60)
    unit("C03", f"alias_{cap}_{rev}", "small_vector.cpp", "smv_alias", f"{q}: sizes 1..{cap+2}, internal or heap storage, one growing call with (a part of) an own element as argument", defs=d, time=60)
    unit("C04", f"alias_life_{cap}_{rev}", "small_vector.cpp", "smv_alias_life", f"{q}: sizes 1..{cap+2}, internal or heap storage, one growing call with (a part of) an own element as argument", defs=d, time=60)
    unit("C04", f"fail_{cap}_{rev}", "small_vector.cpp", "smv_fail", f"{q}: sizes 0..{cap+2}, internal or heap storage, one call or constructor, any of the first 5 constructions of an element or allocations throws", defs=d, time=60, reach=("end", "threw"))
BB = "sizes 7, 16, 17, 33, every constructor, one operation (positions, counts and sizes at the ends, next to them and in the middle, up to 40); element values are solver variables"
for n, w in [("pod", "a trivially copyable type"), ("over", "a type aligned to 32")]:
    unit("C03", n, "small_vector.cpp", "smv_" + n, f"small_vector<.,2,0> of {w}: every constructor, sizes 0..3, one operation", shards=2, time=60, thorough=dict(params=dict(ops=2), shards=8))
for cap, rev in [(1, 0), (17, 9)]:
    d = [f"CAP={cap}", f"REV={rev}"]; q = f"small_vector<.,{cap},{rev}>"; t = dict(params=dict(ops=2), shards=8, time=600)
    unit("C03", f"big_{cap}", "small_vector.cpp", "smv_big", f"{q}: " + BB, defs=d, shards=4, time=60, thorough=t)
    unit("C03", f"big_pod_{cap}", "small_vector.cpp", "smv_big_pod", f"{q} of a trivially copyable type: " + BB, defs=d, shards=4, time=60, thorough=t)
    unit("C04", f"big_life_{cap}", "small_vector.cpp", "smv_big_life", f"{q}: " + BB, defs=d, shards=4, time=60, thorough=t)
RR = "small_vector<.,2,1>: sizes 0..3, construction, assignment and insertion of 0..3 elements from pointers, move, reverse and non-contiguous iterators and pointers to values of two other types"
unit("C03", "ranges", "small_vector.cpp", "smv_ranges", RR, defs=["CAP=2", "REV=1"])
unit("C03", "ranges_pod", "small_vector.cpp", "smv_ranges_pod", RR, defs=["CAP=2", "REV=1"])
unit("C04", "ranges_life", "small_vector.cpp", "smv_ranges_life", RR, defs=["CAP=2", "REV=1"])
unit("C04", "alloc_construct", "small_vector.cpp", "smv_alconstruct", "small_vector<.,2,1>, an allocator with its own construct, destroy and select_on_container_copy_construction: every constructor, sizes 0..3, one operation; copies", defs=["CAP=2", "REV=1"], shards=2, time=60, thorough=dict(params=dict(ops=2), shards=8))
unit("C04", "alloc_equal", "small_vector.cpp", "smv_alequal", "small_vector<.,2,1>, an allocator which is always equal and does not propagate: every constructor, sizes 0..3, one operation", defs=["CAP=2", "REV=1"], shards=2, time=60, thorough=dict(params=dict(ops=2), shards=8))
for cap, rev in [(2, 0), (3, 4)]:
    unit("C03", f"misuse_{cap}_{rev}", "small_vector.cpp", "smv_misuse", f"small_vector<.,{cap},{rev}>: sizes 0..{cap+2}, internal or heap storage, one insertion or erasure at a position before the begin or up to 2 behind the end, or of a range which ends behind the end or before its begin", defs=[f"CAP={cap}", f"REV={rev}"])
