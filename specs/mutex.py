unit("C19", "two", "mutex.cpp", "two", "2 threads, three calls each (and the unlocks which are due), every interleaving with up to 6 preemptions", threads=True, preempt=6, time=60, params=dict(per=3), thorough=dict(params=dict(per=4), preempt=6))
unit("C19", "three", "mutex.cpp", "three", "3 threads, one try_lock each (and the unlock), every interleaving with up to 3 preemptions", threads=True, preempt=3, time=60, thorough=dict(params=dict(per=2), preempt=3))
unit("C19", "seq", "mutex.cpp", "seq", "every history of 5 calls by one thread, another thread trying after each", threads=True, preempt=0, thorough=dict(params=dict(ops=8)))
A["C19"] = ["std::mutex is correct and its lock order is the only synchronization assumed", "interleavings are those of sequential consistency at the granularity of mutex operations, with a happens-before race analysis", "unlock is called by the owner only; recursion deeper than 65537 is not explored"]
unit("C19", "deep", "mutex.cpp", "deep", "recursion of depths around 128, 256 and 32768, another thread trying before, during and after the unlocks", threads=True, preempt=0, engine=("--max-steps", "20000000"), thorough=dict(params=dict(deep=11)))
