unit("C18", "modes", "data_mutex.cpp", "modes", "every sequence of 4 takings (all six kinds, each may throw or fail), moves and releases of up to 3 lock objects", shards=2, thorough=dict(params=dict(ops=6), shards=6))
unit("C18", "two_shared", "data_mutex.cpp", "two_shared", "2 threads with a readers-writer lock, one access each of all six kinds, every interleaving with up to 8 preemptions", threads=True, preempt=8, thorough=dict(params=dict(per=2), preempt=3))
unit("C18", "three_shared", "data_mutex.cpp", "three_shared", "3 threads with a readers-writer lock, one access each of all six kinds, every interleaving with up to 2 preemptions", threads=True, preempt=2, time=80, thorough=dict(preempt=4))
unit("C18", "two_std", "data_mutex.cpp", "two_std", "2 threads with std::mutex, two accesses each, every interleaving with up to 3 preemptions", threads=True, preempt=3, thorough=dict(preempt=8))
A["C18"] = ["the mutex type is correct: mutual exclusion and ordering are those of the given Mutex", "interleavings are those of sequential consistency at the granularity of atomic and mutex operations, with a happens-before race analysis"]
