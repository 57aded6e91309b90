unit("C17", "two", "asps.cpp", "two", "2 threads, one call each of every kind, initially empty or not, every interleaving with up to 8 preemptions", threads=True, preempt=8, time=60, thorough=dict(preempt=14))
unit("C17", "two2", "asps.cpp", "two2", "2 threads, two calls each of every kind, initially empty or not, every interleaving with up to 2 preemptions", threads=True, preempt=2, shards=2, time=90, thorough=dict(preempt=4, shards=6, params=dict(pre=1)))
unit("C17", "three", "asps.cpp", "three", "3 threads, one call each of every kind, initially empty or not, every interleaving with up to 2 preemptions", threads=True, preempt=2, shards=2, time=90, thorough=dict(preempt=4, shards=6, params=dict(pre=1)))
for sd in ("c++11", "c++17", "c++20"):
    unit("C17", "seq_" + sd.replace("+", "p"), "asps.cpp", "seq", f"{sd}: every sequence of 4 calls", std=sd, thorough=dict(params=dict(ops=5)))
    unit("C17", "reenter_" + sd.replace("+", "p"), "asps.cpp", "reenter", f"{sd}: the destructor of the replaced object uses the storage", std=sd)
    unit("C17", "alias_" + sd.replace("+", "p"), "asps.cpp", "alias", f"{sd}: every sequence of 3 calls with pointers of 6 kinds (null, sharing an owner of another object, owning nothing, owning without pointing, with a deleter), the stored pointer stored again", std=sd, params=dict(ops=3), time=60, thorough=dict(params=dict(ops=4)))
A["C17"] = ["interleavings are those of sequential consistency at the granularity of atomic and mutex operations, and a happens-before analysis (vector clocks over acquire and release operations) reports every data race in them; values a relaxed atomic may yield beyond sequential consistency are not explored", "in C++20 the class wraps std::atomic<std::shared_ptr>: the library's implementation is checked sequentially only", "real-time order is observed between calls of different threads where one starts after the other ended"]
