_s = "one of 18 operations at either end, next to the begin or in the middle; four of the elements and those put in are solver variables"
for _p, _f, _e, _c8, _c16 in (("C01", "static_vector.cpp", "sv", "capacities 255, 256, 257 and 600", "capacities 65536 and 65537"), ("C03", "small_vector.cpp", "smv", "static capacities 5, 255, 256 and 600", "static capacities 2 and 65535"), ("C05", "pod_vector.cpp", "pv", "default allocator", "default allocator")):
    unit(_p, "many", _f, _e + "_many", f"{_c8}; sizes 254 to 257, " + _s, shards=2, time=60, engine=("--max-steps", "20000000"))
    unit(_p, "very_many", _f, _e + "_very_many", f"{_c16}; sizes 65535 and 65536, " + _s, shards=6, time=120, engine=("--max-steps", "200000000"))
for _p, _f, _e in (("C07", "flat_map.cpp", "fm"), ("C08", "flat_set.cpp", "fs")):
    for _n, _w in (("", "std::vector"), ("_static", "static_vector")):
        unit(_p, "many" + _n, _f, _e + "_many" + _n, f"over {_w}: 255 to 257 elements inserted in either order or from an unsorted range, both orders; one of 8 operations with every key around 6 of them", shards=2, time=60, engine=("--max-steps", "20000000"), thorough=dict(params=dict(sizes=4)))
