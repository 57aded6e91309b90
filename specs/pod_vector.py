def _b(a, n): return f"pod_vector with {a}: start sizes 0..{n}, spare capacity or not, then every sequence of 2 of 27 operations (all valid positions, counts up to 2, sizes up to 5); element values are solver variables"
for el, tag in [("uint32_t", "u32"), ("uint8_t", "u8"), ("Three", "b3")]:
    d = [f"ELEM={el}"]
    unit("C05", f"default_{tag}", "pod_vector.cpp", "pv_default", _b("the default allocator", 3), defs=d, shards=4, time=60)
    unit("C05", f"default_ctors_{tag}", "pod_vector.cpp", "pv_default_ctors", "every constructor, sizes 0..4, one operation", defs=d, shards=1, time=60)
unit("C05", "waste_u32", "pod_vector.cpp", "pv_waste", _b("an allocator that prefers malloc and copy", 3), defs=["ELEM=uint32_t"], shards=4, time=60)
unit("C05", "expand_u32", "pod_vector.cpp", "pv_expand", _b("an expanding allocator", 3), defs=["ELEM=uint32_t"], shards=4, time=60)
for n in ["8_32", "32_8", "3_32", "32_3"]:
    unit("C05", "recast_" + n, "pod_vector.cpp", "pv_recast_" + n, "0..4 source elements, 0..2 old elements", shards=1, time=60)
    unit("C06", "recast_" + n, "pod_vector.cpp", "pv_recast_" + n, "0..4 source elements, 0..2 old elements", shards=1, time=60)
unit("C06", "realloc", "pod_vector.cpp", "pv_realloc", _b("a recording realloc allocator (in place or moving)", 3), defs=["ELEM=uint32_t"], shards=6, time=60)
unit("C06", "waste", "pod_vector.cpp", "pv_waste", _b("an allocator that prefers malloc and copy", 3), defs=["ELEM=Three"], shards=4, time=60)
unit("C06", "expand", "pod_vector.cpp", "pv_expand", _b("an expanding allocator", 3), defs=["ELEM=Three"], shards=4, time=60)
for al in (8, 32, 128):
    d = [f"ELEM=Over<{al}>"]
    unit("C06", f"low_{al}", "pod_vector.cpp", "pv_low", f"elements aligned to {al} on an allocator aligned to 4, 4 (thorough 8) block offsets; every constructor, one operation", defs=d, shards=2, time=60, params=dict(offs=4), thorough=dict(params=dict(offs=8)))
    unit("C06", f"low2_{al}", "pod_vector.cpp", "pv_low2", f"elements aligned to {al} on an allocator aligned to 4, 2 (thorough 8) block offsets; two operations", defs=d, shards=4, time=60, params=dict(offs=2), thorough=dict(params=dict(offs=8)))
unit("C06", f"lowexp_32", "pod_vector.cpp", "pv_lowexp", f"elements aligned to 32 on an expanding allocator aligned to 4, 2 (thorough 8) block offsets; two operations", defs=["ELEM=Over<32>"], shards=4, time=60, params=dict(offs=2), thorough=dict(params=dict(offs=8)))
unit("C06", "recast_over", "pod_vector.cpp", "pv_recast_over", "over-aligned 64 to 32, 8 block offsets", shards=1, time=60)
unit("C06", "recast_over2", "pod_vector.cpp", "pv_recast_over2", "over-aligned 32 to 64, 8 block offsets", shards=1, time=60)
for n in ("default", "waste", "realloc", "expand"):
    unit("C05", n + "_alias", "pod_vector.cpp", f"pv_{n}_alias", "sizes 1..3, spare capacity or not, one growing call with an own element as argument", defs=["ELEM=uint32_t"], time=60)
BB = "sizes 7, 16, 17, 33, every constructor, one operation (positions, counts and sizes at the ends, next to them and in the middle, up to 40); element values are solver variables"
t = dict(params=dict(ops=2), shards=8, time=600)
unit("C05", "big_u8", "pod_vector.cpp", "pv_big", BB, defs=["ELEM=uint8_t"], shards=4, time=60, thorough=t)
unit("C05", "big_b3", "pod_vector.cpp", "pv_big", BB, defs=["ELEM=Three"], shards=4, time=60, thorough=t)
for n in ("realloc", "waste", "expand"): unit("C06", "big_" + n, "pod_vector.cpp", "pv_big_" + n, BB, defs=["ELEM=uint32_t"], shards=4, time=60, thorough=t)
unit("C06", "big_low_32", "pod_vector.cpp", "pv_big_low", BB + "; elements aligned to 32 on an allocator aligned to 4", defs=["ELEM=Over<32>"], shards=4, time=60, params=dict(offs=2), thorough=t)
RR = "sizes 0..3, construction, assignment and insertion of 0..3 elements from pointers, move, reverse and non-contiguous iterators and pointers to values of two other types"
for e, t in (("uint32_t", "u32"), ("uint8_t", "u8"), ("Three", "b3")): unit("C05", "ranges_" + t, "pod_vector.cpp", "pv_ranges", RR, defs=["ELEM=" + e])
unit("C06", "ranges_low_32", "pod_vector.cpp", "pv_ranges_low", RR + "; elements aligned to 32 on an allocator aligned to 4", defs=["ELEM=Over<32>"])
