for sd in ("c++11", "c++17", "c++20"):
    t = sd.replace("+", "p")
    unit("C22", "make_" + t, "ptr.cpp", "make", f"{sd}: lvalues, const lvalues and rvalues of every value", std=sd)
    unit("C22", "aliased_" + t, "ptr.cpp", "aliased", f"{sd}: owners made in 7 ways (also null owners and empty owners that are not null)", std=sd)
    unit("C22", "shared_from_" + t, "ptr.cpp", "shared_from", f"{sd}: objects created as 5 types, every call", std=sd)
    unit("C22", "unowned_" + t, "ptr.cpp", "unowned", f"{sd}: objects without owner", std=sd)
    unit("C22", "dying_" + t, "ptr.cpp", "dying", f"{sd}: every call in the destructor of the object", std=sd)
A["C22"] = ["on objects without owner weak_from and (before C++17) weak_from_this either throw std::bad_weak_ptr or give an expired pointer", "the void pointers of shared_from_this designate the object's enable_shared_from part; only their ownership is checked", "make_ptr functions take the two argument forms of their documentation (one argument)"]
unit("C23", "affix", "strutil.cpp", "affix", "strings of 0..5, affixes of 0..4 characters, all contents, null views", shards=1, thorough=dict(params=dict(maxs=12, maxp=12)))
unit("C23", "strip", "strutil.cpp", "strip", "strings of 0..6, affixes of 0..3 characters, all contents, null views", thorough=dict(params=dict(maxs=12, maxp=6)))
unit("C23", "views", "strutil.cpp", "views", "every subrange of 0..4 characters, 7 kinds of iterators")
A["C23"] = ["iterators given to make_string_view are contiguous and form a range"]
for n, d in [("q_vector", "std::vector"), ("q_deque", "std::deque"), ("q_small", "small_vector"), ("q_static", "static_vector"), ("q_pod", "pod_vector"), ("q_span", "span (searches only)"), ("q_moveonly", "std::vector of move-only elements compared with another type")]:
    unit("C24", n, "qalgorithm.cpp", n, f"{d}; 0..4 elements (3 if move-only), every content, value and threshold predicate", thorough=dict(params=dict(maxn=6)))
A["C24"] = ["the value searched for is not an element of the container being erased from", "predicates have no effects"]
for n, d in [("vector", "std::vector"), ("list", "std::list"), ("pod", "pod_vector")]:
    unit("C24", "q_other_" + n, "qalgorithm.cpp", "q_other_" + n, f"{d}; 0..4 elements; searching and erasing the first of every 32-bit and 64-bit value, or of an own element", thorough=dict(params=dict(maxn=6)))
for n, d in [("vector", "std::vector"), ("pod", "pod_vector"), ("static", "static_vector")]:
    unit("C24", "q_long_" + n, "qalgorithm.cpp", "q_long_" + n, f"{d}; 9, 16, 17 or 33 elements of which two are arbitrary; every value and threshold predicate")
unit("C23", "long", "strutil.cpp", "lengthy", "affixes of 1, 2, 7, 8, 16, 17 or 255 to 257 characters, repeated 0..3 times (the short ones also 255 and 256 times), with a rest; first and last character of the affix and one of the string are arbitrary")
unit("C24", "q_list", "qalgorithm.cpp", "q_list", "std::list; 0..4 elements, every content, value and threshold predicate; erase_all does not compile for lists", thorough=dict(params=dict(maxn=6)))
for n, d in [("vector", "std::vector"), ("deque", "std::deque"), ("small", "small_vector")]:
    unit("C24", "q_ident_" + n, "qalgorithm.cpp", "q_ident_" + n, f"{d}; 0..4 elements which can be equal but not the same; every content, value and threshold predicate", thorough=dict(params=dict(maxn=6)))
unit("C24", "q_count256", "qalgorithm.cpp", "q_count256", "std::vector; 255..257 elements, all but one equal; every value and threshold predicate")
