for n in "i8 u8 i16 u16 i32 u32 i64 u64 c c16 ll wc".split():
    unit("C25", "seq_" + n, "counter.cpp", "seq_" + n, f"{n}: two operations of every kind, all initial values and operands", thorough=dict(params=dict(ops=3)), std="c++11" if n in ("c", "ll") else "c++20" if n == "wc" else "c++17")
unit("C25", "two_u32", "counter.cpp", "two_u32", "2 threads, two operations each of every kind, every interleaving", threads=True, preempt=8, thorough=dict(params=dict(per=3), preempt=12))
unit("C25", "two_i8", "counter.cpp", "two_i8", "2 threads, two operations each of every kind with values that wrap, every interleaving", threads=True, preempt=8, thorough=dict(params=dict(per=3), preempt=12))
unit("C25", "three_u64", "counter.cpp", "three_u64", "3 threads, one operation each of every kind, every interleaving", threads=True, preempt=8, thorough=dict(params=dict(per=2), preempt=3))
unit("C25", "three_i16", "counter.cpp", "three_i16", "3 threads, one operation each of every kind, every interleaving", threads=True, preempt=8, thorough=dict(params=dict(per=2), preempt=3))
A["C25"] = ["before C++20 the value of a default-constructed counter is not set (it is the default constructor of std::atomic)", "copies and assignments from a counter are a load and a store, not one atomic operation"]
