#!/usr/bin/env python3
# regenerates /verif/properties.jsonl (edit here, then run)
import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,observe=None):
    a={"files":["include/itlib/"+f for f in files],
       "mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},
              "why_tests_cant":why,"anchors":a})
def w(f,l): return "include/itlib/%s:%s"%(f,l)

p("C01","static_vector is a std::vector with a hard capacity",
 "After any sequence of constructions, assignments, push/emplace/insert/erase/pop/resize/assign/swap/clear calls with valid positions, a static_vector holds exactly the sequence of values the same calls leave in a std::vector, and size, iteration, indexing, returned iterators and comparisons agree with it. An operation that would exceed the capacity throws std::out_of_range under the default configuration, for every requested count however large, and never writes outside the object.",
 ["inputs","histories"],"all element values, valid positions, counts (including 0 and huge ones) and operation sequences up to the bound",
 "the tests insert and erase at a few fixed positions of a few fixed vectors; empty ranges, every position/size/capacity combination and overflowing counts are never tried",
 ["static_vector.hpp"],[("grow_at opens a gap","static_vector.hpp:grow_at"),("shrink_at closes one","static_vector.hpp:shrink_at"),("assign_impl_*","static_vector.hpp"),("swap","static_vector.hpp:swap")],
 [("m_size","number of live elements","static_vector.hpp")])
p("C02","static_vector constructs and destroys every element exactly once",
 "For every operation sequence, an element of a static_vector is constructed exactly once in its own slot before it is used, destroyed exactly once, and never read, assigned, moved from or destroyed when not alive; after the vector and everything copied or moved from it are gone no element remains alive. The source of a move keeps no live elements and no slot beyond size() is ever alive.",
 ["inputs","histories"],"operation sequences, positions and counts up to the bound, over an element type that records its own lifetime",
 "the tests count constructions in a few fixed scenarios and cannot see a destroyed element that is reused in place",
 ["static_vector.hpp"],[("placement new / explicit destructor calls","static_vector.hpp:grow_at,shrink_at,clear,swap,resize")],
 [("m_data","raw storage for Capacity elements","static_vector.hpp")])
p("C03","small_vector behaves as std::vector across the static/dynamic boundary",
 "After any sequence of constructions, assignments, push/emplace/insert/erase/pop/resize/reserve/shrink_to_fit/assign/swap/clear calls with valid positions, a small_vector holds exactly the sequence a std::vector holds after the same calls, with the same returned iterators, size and comparison results, whether its elements are in the internal buffer or on the heap and however often it crossed between the two. Capacity is never below size, never below the static capacity, and at least what was reserved. An insertion or erasure at a position outside the vector throws std::out_of_range under the default configuration and changes nothing.",
 ["inputs","histories"],"all element values, valid positions, counts and operation sequences up to the bound, from every reachable static and dynamic shape",
 "the tests walk a handful of scripted sequences; the behaviour depends on size, capacity, static capacity, revert size and position together",
 ["small_vector.hpp"],[("grow_at / shrink_at","small_vector.hpp"),("choose_data: static or dynamic storage","small_vector.hpp:choose_data"),("swap, move construction and assignment in four storage combinations","small_vector.hpp")],
 [("m_begin,m_end,m_capacity","current storage","small_vector.hpp"),("m_static_data","internal buffer","small_vector.hpp")])
p("C04","small_vector element lifetime, storage and allocator discipline",
 "Every element of a small_vector is constructed once and destroyed once, every block obtained from its allocator is returned exactly once with the size it was requested with, to an allocator it may be returned to, and nothing is leaked or used after release, for every operation sequence and storage transition. As long as it never needs more than its static capacity it makes no allocation, and after an erase, pop_back, clear or shrink_to_fit that leaves no more elements than its documented revert size (or static capacity, for shrink_to_fit) it is back in the internal buffer.",
 ["inputs","histories"],"operation sequences up to the bound, static capacity/revert-size configurations, equal and unequal allocators",
 "the tests check totals of one counting allocator at the end of scripted scenarios",
 ["small_vector.hpp"],[("dtor-allocation pairing","small_vector.hpp:choose_data,clear,operator=,swap,shrink_to_fit"),("revert to static","small_vector.hpp:shrink_at,revert_to_static")],
 [("RevertToStaticBelow","size at which storage reverts","small_vector.hpp")])
p("C05","pod_vector behaves as a std::vector of a trivial type",
 "After any sequence of constructions, assignments, push/emplace/insert/erase/pop/resize/reserve/shrink_to_fit/assign/swap/clear calls with valid positions, a pod_vector holds exactly the sequence of values a std::vector holds after the same calls (elements left uninitialized by a size-only construct or resize are unspecified), with the same returned iterators and size, and no call reads or writes outside its own storage. Re-typing a buffer with the recast operations preserves its bytes.",
 ["inputs","histories"],"all element values, positions, counts and operation sequences up to the bound; several element sizes and both allocator styles (malloc/realloc and custom)",
 "the tests run fixed sequences on two element types; growth, gap and shrink arithmetic depends on size, capacity, position and element size together",
 ["pod_vector.hpp"],[("grow_at / shrink_at via memmove","pod_vector.hpp"),("fill, copy, assign_fill","pod_vector.hpp"),("recast_copy_from, recast_take_from","pod_vector.hpp")],
 [("m_begin,m_end,m_capacity","buffer","pod_vector.hpp")])
p("C06","pod_vector returns every block correctly and keeps its data aligned",
 "A pod_vector's data is always aligned for its element type, including over-aligned ones; each block it obtains is released exactly once and, when the allocator is given a size on release, with the size it was obtained with; nothing is leaked or touched after release. This holds through growth, in-place expansion, reallocation, shrinking, moves, swaps and buffer hand-over between pod_vectors of different element types.",
 ["inputs","histories"],"operation sequences up to the bound, allocators that move or expand on realloc, element types of different size and alignment",
 "the tests cannot make realloc/expand take each of its outcomes, and never hand buffers between over-aligned types",
 ["pod_vector.hpp"],[("pod_allocator interfaces","pod_vector.hpp:impl"),("change_capacity / expand / realloc_wasteful_copy_size","pod_vector.hpp")],
 [("m_capacity","capacity in elements","pod_vector.hpp")])
p("C07","flat_map is an ordered map with unique keys",
 "For every sequence of insert, emplace, operator[], assignment, erase, swap and lookup calls, a flat_map (with any underlying random-access container and strict weak order) contains the same key/value pairs as a std::map after the same calls, iterates them in strictly increasing key order, and find, count, lower_bound, upper_bound, equal_range, at, returned iterators and inserted-flags agree with it. at() of an absent key throws std::out_of_range, and building from an unsorted range keeps one element per key. A lookup key of another type is looked up by how the order compares it with the keys.",
 ["inputs","histories"],"all keys and values, all operation sequences up to the bound, different orders and underlying containers",
 "the tests use fixed string/int keys; lookup correctness depends on the relative order of the key with every stored key",
 ["flat_map.hpp"],[("lower_bound-based find and insert","flat_map.hpp"),("pair_compare","flat_map.hpp"),("sort and unique on construction","flat_map.hpp:modify_container,ctor")],
 [("m_container","sorted unique pairs","flat_map.hpp")])
p("C08","flat_set is an ordered set with unique elements",
 "For every sequence of insert, emplace, erase, assignment, swap and lookup calls, a flat_set contains the same elements as a std::set after the same calls, iterates them in strictly increasing order, and find, count, lower_bound, upper_bound, equal_range, returned iterators and inserted-flags agree with it, also when searching with a key of another comparable type. Building from a container, range or list, sorted or not, yields the same elements with duplicates removed.",
 ["inputs","histories"],"all elements and operation sequences up to the bound, default and reversed orders, transparent lookup",
 "the tests use a few fixed element sets; the result depends on the relative order of all elements",
 ["flat_set.hpp"],[("lower_bound-based find and insert","flat_set.hpp"),("sort and unique on construction","flat_set.hpp")],
 [("m_container","sorted unique elements","flat_set.hpp")])
p("C09","dynamic_bitset is exactly a sequence of bits, for every word type",
 "For every size and every sequence of set, reset, flip, test, indexing, iteration, push_back, resize, assign, append and range-copy calls, each bit of a dynamic_bitset reads as the last value given to that bit (false for bits a resize adds), and all, any and none are what that bit sequence implies, independently of the word type and of leftover bits in the last word. Bits outside the destination of a copy never change, and no call reads or writes outside the words the bits occupy.",
 ["inputs","histories"],"all bit contents, sizes, positions and source/destination offsets up to the bound, for 8- to 64-bit words",
 "the tests use a few fixed bit patterns; offset copies and last-word masking depend on contents, offset and length modulo the word size together",
 ["dynamic_bitset.hpp"],[("word index and mask arithmetic","dynamic_bitset.hpp"),("copy/append with shifts","dynamic_bitset.hpp:copy,append"),("zeroing of unused bits","dynamic_bitset.hpp")],
 [("m_bits,m_size","words and size in bits","dynamic_bitset.hpp")])
p("C10","expected holds exactly one of value or error",
 "For every sequence of construction, assignment, move, clear and access on any of expected's forms (value, reference or void value; error or void error), has_value and the held value or error are those of the last assignment, exactly one payload object is alive while one is held and it is destroyed exactly once, and the object stays valid when a payload's copy throws. Constructing or assigning from an lvalue never modifies it, moving copies nothing; value_or, error access and conversions return what the held state implies.",
 ["inputs","histories","fault_sequences"],"all payloads, all ordered pairs of states, operation sequences up to the bound, every payload copy/move that may throw",
 "the tests exercise each operation from one or two states with payloads that never throw, and never compare leftovers of unconstructed payloads",
 ["expected.hpp"],[("m_has_value discriminates a union","expected.hpp"),("assignment from each pair of states","expected.hpp:operator=")],
 [("m_has_value, m_value, m_error","discriminated storage","expected.hpp")])
p("C11","any owns one value of a known type and returns exactly it",
 "Through any sequence of construct, emplace, assign, copy, move, swap, reset and access, an any that holds a value returns exactly that value for exactly its stored decayed type and refuses every other type, and every copy is independent of its source and of the object it was made from. Every stored object is destroyed exactly once with its memory returned to the allocator it came from, and self-assignment changes nothing.",
 ["inputs","histories"],"all values, all ordered pairs of states, operation sequences up to the bound, stateful allocators",
 "the tests store a few values once and do not assign from lvalues that die or from an any to itself",
 ["any.hpp"],[("object blocks with type-erased destroy/copy","any.hpp"),("allocator-aware allocation","any.hpp")],
 [("m_block","owned object","any.hpp")])
p("C12","generator yields each produced value once, in order, and frees its frame",
 "A generator whose end was not reached yet returns, through next() or through iteration, exactly the values its coroutine yields, in order, and then reports that it is done; an exception leaves through the consumer's call that reached it. The coroutine runs only as far as the consumer asked, yielded references designate the coroutine's own object, and its frame and locals are destroyed exactly once whether it was exhausted, abandoned, reset, moved from or threw.",
 ["inputs","histories"],"all yielded values and lengths, all points of abandonment, move and throw, up to the bound",
 "the tests run a few fixed coroutines to completion",
 ["generator.hpp"],[("promise type and awaiters","generator.hpp"),("handle ownership","generator.hpp")],
 [("m_handle","owned coroutine","generator.hpp")])
p("C13","span and memory views designate exactly the elements asked for",
 "A span or memory view designates exactly the elements of the range it was made from; subspan, first and slice, for every offset and count however large, and last, remove_prefix and remove_suffix, for every count up to the size, yield exactly the requested elements that the view has and never one outside it. Element access, forward and reverse iteration and size agree with the underlying array, and byte views cover exactly the same bytes.",
 ["inputs"],"all contents, lengths, offsets and counts (full 64-bit range)",
 "the tests slice one array at fixed in-range offsets",
 ["span.hpp","memory_view.hpp"],[("clamping in subspan and friends","span.hpp"),("memory_view conversions and slicing","memory_view.hpp")],
 [("m_begin,m_end","range","span.hpp")])
p("C14","stride_span and poly_span visit exactly every stride-th element",
 "Element i of a stride_span or poly_span is the object at byte offset i times the stride from the start, for every size, element type and stride; its iterators are random-access iterators over exactly these elements, so that differences, comparisons, increments, decrements and jumps in both directions obey iterator arithmetic, and subspans and prefix/suffix removal designate exactly the requested elements.",
 ["inputs"],"all sizes, strides, indices and iterator pairs up to the bound",
 "the tests iterate forwards over a few arrays; iterator differences are only taken in one direction",
 ["stride_span.hpp","poly_span.hpp"],[("byte-offset iterator arithmetic","stride_span.hpp"),("derived-to-base adjustment","poly_span.hpp")],
 [("m_data,m_size,m_stride","range","stride_span.hpp")])
p("C15","mem_ostreambuf records exactly what was written",
 "Whatever sequence of single-character writes, block writes, seeks to valid positions and container retrievals is made through it, the container behind a mem_ostreambuf ends up with exactly the bytes a std::stringbuf opened for output would hold, and reported positions are the same; after the container is taken the buffer is empty and works like a new one. Growth never loses or duplicates bytes and nothing is written outside the container.",
 ["inputs","histories"],"all byte values, block lengths, write/seek/take sequences up to the bound; containers that are empty, pre-sized or have internal storage",
 "the tests write a few strings through an ostream",
 ["mem_streambuf.hpp"],[("overflow/xsputn growth","mem_streambuf.hpp"),("seek and pbump arithmetic","mem_streambuf.hpp"),("get_container/peek_container/clear","mem_streambuf.hpp")],
 [("m_data","container behind the put area","mem_streambuf.hpp")])
p("C16","mem_istreambuf reads exactly the bytes it was given",
 "Any sequence of get, peek, putback, block read, tell and seek calls (from the beginning, the current position or the end) on a mem_istreambuf gives the results a std::stringbuf opened for input on the same bytes gives, including end-of-file and the failure of seeks outside the buffer, and never reads outside the bytes.",
 ["inputs","histories"],"all contents, lengths, call sequences and 64-bit seek offsets up to the bound",
 "the tests read and seek a few fixed positions",
 ["mem_streambuf.hpp"],[("seekoff/seekpos","mem_streambuf.hpp:mem_istreambuf"),("get area set once","mem_streambuf.hpp")])
p("C17","atomic_shared_ptr_storage is linearizable and race-free",
 "Concurrent load, store, exchange and compare_exchange calls on one atomic_shared_ptr_storage behave as if executed one at a time in an order consistent with each thread, free of data races, and every object reached through a returned pointer is fully visible and alive. Each stored object is destroyed exactly once, after its last owner is gone, and all calls terminate.",
 ["schedules","histories"],"all interleavings (at atomic operations) of up to 3 threads with a bounded number of calls each",
 "tests run a few threads for a while; a lost update, missing release/acquire or use-after-free needs a particular interleaving",
 ["atomic_shared_ptr_storage.hpp"],[("spin flag around shared_ptr copy/swap","atomic_shared_ptr_storage.hpp"),("acquire/release orders","atomic_shared_ptr_storage.hpp")],
 [("m_flag, m_ptr","spin lock and stored pointer","atomic_shared_ptr_storage.hpp")])
p("C18","data_mutex gives access to its data only under its mutex",
 "Data inside a data_mutex is reachable only between a successful lock and the matching unlock: two unique locks never coexist, shared locks coexist only with shared locks, and every lock is released exactly once in the mode it was taken in, also after a move, early unlock, failed try-lock or a throwing lock. A lock object converts to true exactly while it owns the lock, and updates are visible to the next owner.",
 ["schedules","histories","fault_sequences"],"all interleavings of up to 3 threads with bounded calls; all lock/try_lock/move/unlock sequences up to the bound; a lock operation that throws",
 "tests take each lock once on one thread",
 ["data_mutex.hpp"],[("lock types derived from unique_lock/shared_lock","data_mutex.hpp"),("data pointer nulled when not owned","data_mutex.hpp")],
 [("m_data","pointer to the guarded object while owned","data_mutex.hpp")])
p("C19","strong_try_rec_mutex: try_lock fails exactly when another thread owns it",
 "try_lock on a strong_try_rec_mutex succeeds exactly when the mutex is free or already owned by the calling thread, never fails spuriously, and the mutex becomes free exactly when its owner has unlocked as often as it locked; while one thread owns it no other does, and data it guards is free of races.",
 ["schedules","histories"],"all interleavings of up to 3 threads with a bounded number of nested locks each",
 "tests check a scripted sequence of two threads",
 ["mutex.hpp"],[("owner and depth under an internal mutex","mutex.hpp")],
 [("m_owner,m_depth","owner and recursion depth","mutex.hpp")])
p("C20","ufunction owns and calls exactly the callable it was given",
 "Calling a non-empty ufunction calls exactly the callable it holds, forwarding arguments (including move-only ones and references) and result unchanged; construction, move, assignment and reset keep exactly one live copy of the callable, which is never copied after the construction (only a callable given as an lvalue is copied, once, by it) and is destroyed exactly once. A moved-from, default- or null-initialized or null-assigned ufunction is empty, and its truth value is whether it holds a callable.",
 ["inputs","histories"],"all arguments and all construct/assign/move/reset/call sequences up to the bound, small and large callables",
 "tests call a few lambdas once",
 ["ufunction.hpp"],[("wrapping a move-only callable","ufunction.hpp")],
 [("callable storage","held function","ufunction.hpp")])
p("C21","sentry runs its function exactly once, at scope exit",
 "A scope guard runs its function exactly once, when its scope is left, however it is left (normally, early, or by an exception), in reverse order of construction, and never earlier; a guard that was moved from does not run it, and a function given as an lvalue is used by reference, not copied.",
 ["inputs","histories","fault_sequences"],"all nestings and exits up to the bound, normal and by exception, moves where the language version allows them",
 "tests check one normal scope exit",
 ["sentry.hpp"],[("armed flag / disarming on move","sentry.hpp")])
p("C22","shared_from and make_ptr: pointers share ownership of the right object",
 "make_shared and make_unique give a pointer to a new object equal to (or moved from) the argument; make_aliased and shared_from return pointers to exactly the requested object that share ownership with, and keep alive, the owner, whatever type it was created as, and an aliased pointer of an empty owner is empty. weak_from pointers expire exactly when the last owner is gone, and no call changes the number of owners after its result is dropped.",
 ["inputs","histories"],"all ownership histories up to the bound: create, alias, copy, drop in every order",
 "tests check use counts of two scripted scenarios",
 ["make_ptr.hpp","shared_from.hpp"],[("aliasing constructors","make_ptr.hpp:make_aliased"),("enable_shared_from_this of a common base","shared_from.hpp")])
p("C23","strutil prefix, suffix and view helpers are exact",
 "For all strings, starts_with and ends_with answer exactly whether the string begins or ends with the given one; remove_prefix_all and remove_suffix_all strip exactly all leading or trailing repetitions, leaving a view into the original characters; and make_string_view designates exactly the given character range. No character outside the given strings is read.",
 ["inputs"],"all contents of strings up to the bounded lengths, including empty ones",
 "tests use a few literals",
 ["strutil.hpp"],[("split iteration","strutil.hpp"),("starts_with/ends_with","strutil.hpp")])
p("C24","qalgorithm finds and erases exactly the matching elements",
 "qfind, pfind and their predicate forms return the first matching element of the whole range (or end/null); qall_of, qany_of and qnone_of answer as their std counterparts; erase_first removes exactly the first match and reports whether there was one; erase_all removes exactly the matches, keeps the rest in order and reports how many were removed, for every content.",
 ["inputs"],"all contents and lengths up to the bound, vectors and arrays, all predicates on the element value",
 "tests use a few fixed vectors",
 ["qalgorithm.hpp"],[("find/erase wrappers","qalgorithm.hpp")])
p("C25","atomic_relaxed_counter loses no update and returns what an integer would",
 "Every operation of atomic_relaxed_counter has the result and effect of the same operation on a plain integer of its type (wrapping included), and under any interleaving of threads no increment, decrement or addition is lost and each returned value is unique to its place in one total order of the updates.",
 ["inputs","schedules"],"all initial values and operands of the type; all interleavings of up to 3 threads with bounded updates",
 "tests check a few values on one thread",
 ["atomic.hpp"],[("fetch_add/fetch_sub with relaxed order","atomic.hpp")],[("a","the atomic","atomic.hpp")])
p("C26","time_t arithmetic and strftime are exact",
 "time_t computes exactly the arithmetic and comparisons of the second counts it wraps, converts to and from std time types, durations and calendar fields without loss, and itlib::strftime returns exactly the text std::strftime gives for the same format and time, however long it is, including an empty text.",
 ["inputs"],"all 64-bit second counts for arithmetic (without overflow); output lengths around every internal buffer size",
 "tests format one time and check a few sums",
 ["time_t.hpp"],[("wrapped time_t","time_t.hpp"),("growing format buffer","time_t.hpp:strftime")])
p("C27","transparent_umap finds what an unordered_map finds, without building keys",
 "With a transparent hash and comparison, for every content and every lookup key, transparent_umap's at, operator[] and try_emplace find the element an equal Key would find, at throws std::out_of_range exactly when there is none, and operator[] and try_emplace insert exactly one new element with the given key and value only when there is none, leaving existing elements untouched and building no key when one is found; everything else behaves as the std::unordered_map it is.",
 ["inputs","histories"],"all contents and keys up to the bound, all hash values including collisions",
 "the test file is nearly empty",
 ["transparent_umap.hpp"],[("lookup-key wrapper over unordered_map","transparent_umap.hpp")])
p("C28","pmr_allocator routes every allocation to its resource exactly",
 "A pmr_allocator requests from and returns to its memory resource exactly the bytes and alignment its arguments imply, and never fewer bytes than the objects need for any count (an impossible count is refused with std::bad_array_new_length); new_object constructs exactly one object from its arguments and returns the memory if construction throws, and delete_object destroys it and returns the same block. A copy or rebound allocator uses the same resource.",
 ["inputs"],"all object counts and byte sizes (full 64-bit range), object sizes and alignments in the bound, throwing constructors",
 "tests use small fixed counts",
 ["pmr_allocator.hpp"],[("allocate/deallocate forwarding","pmr_allocator.hpp")],[("m_resource","memory resource","pmr_allocator.hpp")])
p("C29","rstream only reads, and restores what it redirects",
 "Reading through an rstream gives exactly what the same reads on the wrapped stream give (bytes, fail, eof and good state, and resulting position) and never changes the stream otherwise; a redirect_rstream reads from its given position and on destruction the wrapped stream is back at the position it had, also when a read failed.",
 ["inputs","histories"],"all contents, read sizes, positions and read sequences up to the bound, starting from a good stream",
 "tests read one file",
 ["rstream.hpp"],[("forwarding to the wrapped stream","rstream.hpp"),("restore on destruction","rstream.hpp")])
p("C30","bit_cast, owner_from_member and type traits answer exactly",
 "bit_cast preserves every bit pattern both ways, owner_from_member returns exactly the object whose member it is given, for every member and every object, force_move never copies, and is_noop_convertible is true only for scalar conversions that keep the object representation for every value.",
 ["inputs","configurations"],"all 8- to 64-bit patterns; all members of the tested classes; the supported type pairs",
 "tests check a few values and types",
 ["utility.hpp","type_traits.hpp"],[("memcpy-based bit_cast","utility.hpp"),("offset computation","utility.hpp:owner_from_member"),("is_noop_convertible","type_traits.hpp")])
p("C31","throw_ex throws exactly the requested exception with exactly the streamed text",
 "Streaming into a throw_ex throws, at the end of the full expression, exactly one exception of the requested type whose text is exactly what was streamed, in order; with nothing streamed the text is empty, and nothing is thrown before all operands were streamed.",
 ["inputs","fault_sequences"],"all streamed values and sequences up to the bound",
 "tests check two messages",
 ["throw_ex.hpp"],[("throw from the end of the expression","throw_ex.hpp")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
