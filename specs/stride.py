for n, d in [("stride_u8", "stride_span of bytes, strides 1,2,3,7,256"), ("stride_u32", "stride_span of 4-byte elements, strides 4,8,12,20")]:
    unit("C14", n, "stride.cpp", n, f"{d}, sizes 0..3, const and not; one slicing operation with every 64-bit offset and count; all pairs of iterator positions", shards=2, time=60, thorough=dict(params=dict(ops=2, maxn=4), shards=4))
unit("C14", "stride_make", "stride.cpp", "stride_make", "every factory: sub-arrays with all offsets and strides, members, bases; sizes 0..4", time=60, thorough=dict(params=dict(maxn=6)))
for n, d in [("poly_ref", "reference to a member chosen per element"), ("poly_value", "a computed value"), ("poly_cref", "const reference, 1-byte elements")]:
    unit("C14", n, "stride.cpp", n, f"poly_span giving {d}; sizes 0..3; one slicing operation with every 64-bit offset and count; all pairs of iterator positions; element contents are solver variables", shards=1, time=60, thorough=dict(params=dict(ops=2, maxn=4), shards=2))
A["C14"] = ["strides are at least 1; remove_prefix, remove_suffix and last are given at most the size", "iterators offer no postfix operators and no subscript; these are not required"]
unit("C14", "stride_huge", "stride.cpp", "stride_huge", "strides 2^31, 2^32+64 and 3*2^33+1; sizes 0..3; one slicing operation with every 64-bit offset and count; addresses only", time=60)
unit("C14", "poly_huge", "stride.cpp", "poly_huge", "poly_span over elements of more than 4 GB; sizes 0..3; one slicing operation with every 64-bit offset and count; addresses only", time=60)
for n, w in (("stride_many", "stride_span of 2-byte elements, strides 2, 6, 300"), ("poly_many", "poly_span giving a value or a reference")):
    unit("C14", n, "stride.cpp", n, f"{w}; 255 to 257 and 65537 elements, one slicing operation with 12 offsets and counts (0, 1, around 2^8 and 2^16, around the size, 2^64-1)", time=90, shards=2, engine=("--max-steps", "100000000"))
