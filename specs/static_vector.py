B = "static_vector<.,4>: start sizes 0..4, then every sequence of 2 of 26 operations with every valid position and counts up to 2; element values are arbitrary 32-bit solver variables"
unit("C01", "values", "static_vector.cpp", "sv_values", B, shards=8, time=60)
unit("C01", "ctors", "static_vector.cpp", "sv_ctors", "static_vector<.,5>: every constructor, sizes 0..5, then 1 operation with counts up to 3", shards=2, time=60)
unit("C01", "overflow", "static_vector.cpp", "sv_overflow", "static_vector<.,3>: every growing call from every size and position, every 64-bit count", shards=1, time=60)
unit("C02", "life", "static_vector.cpp", "sv_life", B, shards=8, time=60)
unit("C02", "life_ctors", "static_vector.cpp", "sv_life_ctors", "as C01 ctors", shards=2, time=60)
unit("C02", "overflow_life", "static_vector.cpp", "sv_overflow_life", "as C01 overflow", shards=1, time=60)
unit("C02", "ctor_overflow", "static_vector.cpp", "sv_ctor_overflow", "all 64-bit counts", shards=1, time=60)
unit("C01", "alias", "static_vector.cpp", "sv_alias", "static_vector<.,5>: sizes 1..4, one growing call with (a part of) an own element as argument", time=60)
unit("C02", "alias_life", "static_vector.cpp", "sv_alias_life", "static_vector<.,4>: sizes 1..3, one growing call with (a part of) an own element as argument", time=60)
unit("C02", "fail", "static_vector.cpp", "sv_fail", "static_vector<.,4>: sizes 0..3, one call or constructor, any of the first 5 constructions of an element throws", time=60, reach=("end", "threw"))
BB = "sizes 7, 16, 17, 33, every constructor, one operation (positions, counts and sizes at the ends, next to them and in the middle, up to 40); element values are solver variables"
for n, w in [("pod", "a trivially copyable type"), ("over", "a type aligned to 32")]:
    unit("C01", n, "static_vector.cpp", "sv_" + n, f"static_vector<.,4> of {w}: every constructor, sizes 0..4, one operation", shards=2, time=60, thorough=dict(params=dict(ops=2), shards=8))
unit("C01", "big", "static_vector.cpp", "sv_big", "static_vector<.,40>: " + BB, shards=4, time=60, thorough=dict(params=dict(ops=2), shards=8, time=600))
unit("C01", "big_pod", "static_vector.cpp", "sv_big_pod", "static_vector<.,40> of a trivially copyable type: " + BB, shards=4, time=60, thorough=dict(params=dict(ops=2), shards=8, time=600))
unit("C02", "big_life", "static_vector.cpp", "sv_big_life", "static_vector<.,40>: " + BB, shards=4, time=60, thorough=dict(params=dict(ops=2), shards=8, time=600))
RR = "sizes 0..3, construction, assignment and insertion of 0..3 elements from pointers, move, reverse and non-contiguous iterators and pointers to values of two other types"
unit("C01", "ranges", "static_vector.cpp", "sv_ranges", "static_vector<.,6>: " + RR)
unit("C01", "ranges_pod", "static_vector.cpp", "sv_ranges_pod", "static_vector<.,6> of a trivially copyable type: " + RR)
unit("C02", "ranges_life", "static_vector.cpp", "sv_ranges_life", "static_vector<.,6>: " + RR)
