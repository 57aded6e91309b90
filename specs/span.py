for n, d in [("u32", "4-byte elements"), ("u8", "1-byte elements"), ("p12", "12-byte elements")]:
    unit("C13", "span_" + n, "span.cpp", "span_" + n, f"{d}: spans of 0..4 elements from pointers, arrays, containers; every sequence of {2 if n == 'u32' else 1} slicing operations with every 64-bit offset and count", shards=4 if n == "u32" else 1, time=60, params=dict(ops=2 if n == "u32" else 1), thorough=dict(params=dict(ops=3 if n == "u32" else 2), shards=4))
for n, d in [("u32", "4-byte elements"), ("p12", "12-byte elements")]:
    unit("C13", "view_" + n, "span.cpp", "mview_" + n, f"memory_view and const_memory_view, {d}: 0..4 elements, every sequence of {2 if n == 'u32' else 1} slicing operations with every 64-bit offset and count", shards=4 if n == "u32" else 1, time=60, params=dict(ops=2 if n == "u32" else 1), thorough=dict(params=dict(ops=3 if n == "u32" else 2), shards=4))
A["C13"] = ["last, remove_prefix and remove_suffix are given at most the size (documented)"]
for n in ("u8", "u32", "p12"):
    unit("C13", "huge_" + n, "span.cpp", "huge_" + n, "spans and memory views of 5 sizes from 2^31-1 to 2^40 elements: one slicing operation with 12 offsets and counts (0, 1, around 2^31 and 2^32, around the size, 2^63, 2^64-1); addresses only", time=60)
