for n, d in [("value_error", "expected<V,E>"), ("ref_error", "expected<V&,E>"), ("void_error", "expected<void,E>"), ("value_void", "expected<V,void>"), ("ref_void", "expected<V&,void>"), ("void_void", "expected<void,void>")]:
    unit("C10", n, "expected.cpp", "exp_" + n, f"{d}: two objects, each constructed in every way, then every sequence of 3 of 10 operations; payloads are solver variables and check their lifetime; any copy may throw", shards=2, time=60, params=dict(ops=3), thorough=dict(params=dict(ops=4), shards=8))
unit("C10", "plain", "expected.cpp", "exp_plain", "trivial and move-only payloads, returned and assigned", shards=1, time=30)
A["C10"] = ["emplace arguments do not refer to the held value"]
unit("C10", "moves", "expected.cpp", "exp_moves", "six kinds of expected, in every state: moves and rvalue accesses copy nothing, copies copy once")
