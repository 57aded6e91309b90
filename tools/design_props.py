P = {}
P["C01"] = "Differential against an array model. Start states of every size, then every sequence of operations with every valid position; values symbolic. Counts of the capacity checks are full 64-bit variables (`overflow`), the bytes before and after the object are checked by the memory model. Arguments that are (part of) own elements are included (`alias`). `ranges`: construction, assignment and insertion from every kind of random access iterator (pointer, move, reverse, non-contiguous, converting)."
P["C02"] = "The same histories with an element type that records construction, destruction, its own address and being moved from; reads of a dead or moved-from element fail; the live count has to be size() after each call and 0 at the end. `fail` throws from each of the first constructions in turn."
P["C03"] = "As C01, for three (static capacity, revert size) configurations and starting in the buffer or on the heap with spare capacity, so that every operation is seen on both sides of, and crossing, the boundary. Capacity assertions are the documented ones only. `misuse`: positions outside the vector have to be refused without a change. `ranges` as C01; `*_ndebug`, `*_nocheck`, `*_asserts`: other configurations."
P["C04"] = "As C02 plus a recording allocator with identity: each block is known with size and owner, deallocation has to match, unequal allocators and both propagation traits are included (`allocs`), allocations may fail (`fail`). `noalloc` counts allocations, `revert` asks whether data() lies in the object. `alloc_*`: allocators with their own construct/destroy and select_on_container_copy_construction (constructions and destructions through it have to match), and an always equal one which does not propagate."
P["C05"] = "As C01 for trivial element types of 1, 3 and 4 bytes over four allocator models (malloc/realloc, malloc+copy preferred, expand in place). Unspecified values are `undefined` in the model: the engine would report any decision made on them. recast_* compares bytes."
P["C06"] = "Allocators recording each block with size; those with less alignment than the element needs give blocks at every offset, data() has to be aligned and the pointer released has to be the one obtained. Realloc may move or not (a solver choice)."
P["C07"] = "Differential against a sorted array with unique keys. Keys are solver variables, so that all orders and coincidences are covered by the paths; orders: less, greater, a coarse one (equivalent keys which differ), stateful. Strictly increasing order is asserted after each call. Lookup by other types uses only the order. `own`: keys which are (keys of) own elements; `input`: single pass ranges; `throw*`: a copy, comparison or assignment throws at each point in turn: the map stays sorted, unique and leaks nothing."
P["C08"] = "As C07 for sets. `own`, `input`, `throw*` as C07."
P["C09"] = "All bits including the unused ones of the last word are solver variables; the bit index of single-bit operations is a variable; sizes sit at and around word boundaries for 8, 16, 32, 64-bit words. copy is decided for all (size, offset) pairs up to two words plus (narrow words) or boundary values (wide words); each destination bit is compared. Non-owning and owning buffers."
P["C10"] = "State machine of two objects in each of the six forms, payload values variables, any copy may throw; oracle: a variant (value | error | nothing) and the live counts. Constructing from lvalues compares the source afterwards. `moves` counts copies in every construction, assignment and access from rvalues."
P["C11"] = "Two anys, each history of operations, with throwing copies and failing allocations; oracle: a variant. Type refusal is asked for all types after each step. Values stored inside the any's own value (assigning a part of itself) are included. `types`: the full matrix of 27 types (sizes to 200 KB, alignments to 256, throwing moves) against each other."
P["C12"] = "Coroutines as clang lowers them for the target (the real frame layout), consumer histories as variables; production points are counted so that running ahead is detected; the frame is an allocation (leak = frame not freed), locals are lifetime objects."
P["C13"] = "Sizes small, offsets and counts full 64-bit variables; result compared by address and length with the clipped mathematical range. `huge_*`: sizes up to 2^40 over address space which is not memory, all arithmetic on addresses."
P["C14"] = "Each element is compared by address (base + i*stride); all pairs of iterator positions for differences, comparisons and jumps. `*_huge`: strides and elements of more than 4 GiB, negative distances."
P["C15"] = "Every history is made on the buffer and on a model of std::stringbuf's sequence (positions, high mark); all 64-bit seek offsets."
P["C16"] = "As C15 for reading, including eof and failing seeks; in-memory bounds are checked by the memory model. `huge` sizes beyond 2^31."
P["C17"] = "Threads with all interleavings within the preemption bound. The recorded results have to be explained by some sequential order consistent with program and real-time order (searched exhaustively in the harness for each interleaving); object lifetimes by the memory model; races by vector clocks; the C++11/17 spinlock code is the code executed. Contents are solver variables."
P["C18"] = "Sequential: histories of takings, moves, releases on up to three lock objects against a recording mutex which may throw or refuse; concurrent: a model mutex, with the data accessed without atomics, so that an access outside the lock is a race."
P["C19"] = "Every interleaving of two and three threads within the bound; a ghost owner/depth gives the required answer of each try_lock; guarded data unsynchronised. `deep`: recursion beyond 8 and 16 bit counters."
P["C20"] = "Histories on two ufunctions with callables of three sizes which count copies, moves, destructions and calls."
P["C21"] = "Every way out of nested scopes in the four language modes, since the header has two implementations; order and number of runs recorded."
P["C22"] = "Every call on objects created as each type, with the number of owners before and after; the control block is libstdc++'s, executed symbolically."
P["C23"] = "All strings of every length up to the bound with symbolic contents, in exactly sized heap blocks, so that reading one character too far is a memory violation."
P["C24"] = "All contents and values symbolic, oracle: a loop over a copy. `q_ident_*`: elements which compare equal but are distinguishable."
P["C25"] = "Two or three operations of each kind on symbolic values for 12 types against wide integer arithmetic (signed overflow traps); threads: every interleaving; returned values have to be a permutation of the prefix sums of some order."
P["C26"] = "Full 64-bit arithmetic; calendar conversion through stand-ins which return arbitrary fields, so that each field is seen to be forwarded; strftime through a stand-in which needs a given number of characters, so that growth of the buffer is covered for every relevant length. Durations with ticks of days to nanoseconds, integral of 8 to 64 bits and floating; texts to 128 K."
P["C27"] = "Histories against an array model with counters for keys constructed; libstdc++'s hashtable is executed symbolically. `throw`: making the value, key, hash or comparison throws: the map is unchanged and no element is half made."
P["C28"] = "Recording resource; every 64-bit count; C++17 (own implementation) and C++20 (std). Alignments to 4096; objects of 70 KB; all counts."
P["C29"] = "A stream over symbolic bytes with a refilling buffer, compared with the same reads on a second stream."
P["C30"] = "All bit patterns; every member of each object; conversions between all pairs of types compared for all values: traits are compile-time facts, their meaning is decided by the solver. Offsets to 110,000; casts of up to 300 bytes."
P["C31"] = "Operands with symbolic characters and integers compared with the text written by a plain ostringstream."
