# some units once more with assertions disabled (an assertion must not have effects) or with another configuration
def _again(pid, name, suffix, what, extra, **kw):
    u = [x for x in U[pid] if x["name"] == name][0]
    d = dict(u); d.update(name=name + "_" + suffix, defs=u["defs"] + extra, bounds=what + ": as " + name, tiers=("quick", "thorough"), thorough={}); d.update(kw); U[pid].append(d)
for _p, _n in [("C01", "ctors"), ("C02", "life_ctors"), ("C03", "ctors_2_2"), ("C04", "life_ctors_2_2"), ("C05", "default_ctors_u32"), ("C06", "recast_8_32"), ("C07", "build"), ("C07", "vector"), ("C08", "build"), ("C08", "vector"), ("C09", "run_8"), ("C10", "value_error"), ("C10", "ref_error"), ("C11", "default"), ("C12", "value"), ("C13", "span_u32"), ("C13", "view_u32"), ("C14", "stride_u32"), ("C14", "poly_ref"), ("C17", None), ("C19", "two"), ("C19", "seq")]:
    if _n: _again(_p, _n, "ndebug", "without assertions", ["NDEBUG"])
_again("C03", "ctors_2_2", "nocheck", "without error handling and assertions", ["NDEBUG", "ITLIB_SMALL_VECTOR_ERROR_HANDLING=0", "ITLIB_SMALL_VECTOR_NO_DEBUG_BOUNDS_CHECK"])
_again("C03", "ctors_2_2", "asserts", "errors handled by assertions", ["ITLIB_SMALL_VECTOR_ERROR_HANDLING=2"])
