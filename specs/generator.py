for n, d in [("value", "generator<V>"), ("plain", "generator<uint32_t>"), ("only", "generator of a move-only type"), ("ref", "generator<V&>"), ("cref", "generator<const V&>")]:
    unit("C12", n, "generator.cpp", "gen_" + n, f"{d}: coroutines yielding 0..3 values, throwing before, between or after them or not at all; every sequence of 4 of 8 consumer operations; values are solver variables", std="c++20", opt="O0", shards=1, time=60, params=dict(ops=4), thorough=dict(params=dict(ops=5, n=4), shards=4))
unit("C12", "nested", "generator.cpp", "gen_nested", "a generator consuming another one, abandoned after every number of values", std="c++20", opt="O0", time=60)
A["C12"] = ["next, done and begin are not called on an empty generator, and begin not on one which is done"]
