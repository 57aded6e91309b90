#!/usr/bin/env python3
"""Writes known_findings.json.  Fixed entries are looked up in /repo's history by commit subject."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict(reversed(l.split(" ", 1)) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
F = [  # properties, commit subject (without "fix: "), what failed
 (["C01"], "static_vector: no overflow in the capacity check of insert with a huge count", "insert(pos, n, val) with n near the maximum of size_t passed the capacity check and wrote outside the object"),
 (["C01", "C02"], "static_vector: erasing an empty range must not touch the elements", "erase(p, p) move-assigned the elements after p to themselves and destroyed nothing it should"),
 (["C03", "C04"], "small_vector: inserting or erasing an empty range must not touch the elements", "insert of 0 elements or erase(p, p) in the middle of a small_vector read and wrote elements beyond the end"),
 (["C03", "C04"], "small_vector: shrink_to_fit and revert_to_static go back to the static buffer when the elements exactly fit", "a small_vector with exactly its static capacity of elements stayed on the heap"),
 (["C05", "C06"], "pod_vector::resize(n, val): fill only the new elements", "resize(n, val) overwrote existing elements or wrote outside the storage"),
 (["C06"], "pod_vector::recast_take_from: don't take a buffer which was manually aligned for another alignment", "a buffer handed over between element types with different alignment was released at the wrong address"),
 (["C06"], "pod_vector::recast_copy_from: don't access bytes through a pointer which may be misaligned for T", "recast_copy_from read a source buffer through a pointer misaligned for the element type"),
 (["C09"], "dynamic_bitset::all() with words smaller than int", "all() was false for full bitsets of 8 and 16 bit words"),
 (["C09"], "dynamic_bitset::copy when the last bits span two source words", "range copy lost the last bits when they span two words of the source"),
 (["C09"], "dynamic_bitset::resize keeps its size when the buffer can't be resized", "a failed resize changed size()"),
 (["C09"], "dynamic_bitset::word_size overflow", "resize to nearly the maximum of size_t bits gave an empty buffer"),
 (["C09"], "dynamic_bitset::append of itself", "appending a bitset to itself appended wrong bits or read outside the words"),
 (["C10"], "expected: constructing from an unexpected lvalue must not move from it", "expected(unexpected(lvalue)) moved from the caller's error object"),
 (["C10"], "expected<void, E>: assignment between values must not assign the error which does not exist", "assignment between two expected<void, E> with values assigned an error object which does not exist"),
 (["C10"], "expected<T, void>: no value is held if copying the assigned one throws", "a throwing copy assignment left has_value() true without a value object"),
 (["C11"], "any: store a copy and not a reference when constructed or assigned from an lvalue", "any a(lvalue) stored a reference to the lvalue; for const lvalues it did not compile"),
 (["C11"], "any: self copy assignment, and copy assignment of an any stored in its target", "self copy assignment emptied an any; copying from an any stored in the target read freed memory"),
 (["C11"], "any: move assignment of an any stored in its target", "moving from an any stored in the target read freed memory"),
 (["C11"], "any: assignment of (a part of) the current value", "assigning (a part of) the stored value read a destroyed object"),
 (["C12"], "generator: self move assignment", "self move assignment destroyed the coroutine"),
 (["C13"], "span::subspan with an offset which overflows the pointer", "subspan computed a pointer from an unchecked huge offset"),
 (["C14"], "stride_span and poly_span: iterator arithmetic with negative differences", "the difference of two iterators of which the first comes earlier was a huge positive number (unsigned division)"),
 (["C15"], "mem_ostreambuf: get_container with small_vector, and reuse of the buffer after it when empty containers have data", "get_container did not compile with small_vector, and with std::string, static_vector and the like the buffer was unusable after it (position computed from a null pointer)"),
 (["C15"], "mem_ostreambuf: seeking back must not discard what was written, and seeks outside of it must fail", "get_container after a seek back lost what follows the put position; seeks out of range were accepted and wrote outside of the container; seeks from the end were relative to the capacity"),
 (["C15"], "mem_ostreambuf: put position after writing more characters at once than int_type or int can hold", "a single write of 65536 or more char16_t (whose int_type has 16 bits), or of 2^31 characters, left the put position at the wrong place"),
 (["C16"], "mem_istreambuf: block reads with a huge count", "the end check of a block read overflowed"),
 (["C16"], "mem_istreambuf: seeks outside of the buffer must fail", "seeks out of range were accepted and then read outside of the buffer"),
 (["C17"], "atomic_shared_ptr_storage: a failed compare_exchange must not destroy objects under the spinlock", "a failed compare_exchange destroyed the object of the expected pointer under the spinlock: a deadlock if its destructor uses the storage"),
 (["C18"], "data_mutex: a lock which could not be taken must not be released", "when lock(), try_lock() or their shared variants threw, the mutex was unlocked although it was not locked (or an uninitialized pointer decided)"),
 (["C21"], "sentry: moving a sentry of an lvalue function before C++17", "before C++17 make_sentry did not compile for an lvalue function (a reference was bound to an rvalue)"),
(["C25"], "atomic_relaxed_counter: results which overflow a signed type", "++, --, += and -= on a counter of a signed type overflowed (undefined behaviour) when computing the returned value, e.g. ++ at the maximum of int"),
 (["C26"], "strftime with an empty result must not run out of memory", "itlib::strftime doubled its buffer until memory ran out if the text is empty (empty format, or %p in locales without it)"),
 (["C28"], "pmr_allocator::allocate_object: the size in bytes must not overflow", "allocate_object<U>(n) with n * sizeof(U) beyond size_t returned a block which is too small (C++17)"),
 (["C29"], "redirect_rstream: restore the position of a stream which failed", "after a read beyond the end a redirect_rstream did not restore the position of the wrapped stream"),
 (["C27"], "transparent_umap: transparent lookup is enabled by the hash and the comparison; try_emplace with hint", "transparent overloads were enabled by a nested is_transparent of the lookup key instead of the hash and comparison and never for lvalues, and try_emplace with a hint did not compile"),
 (["C30"], "is_noop_convertible: converting to an enum based on bool changes values", "is_noop_convertible<uint8_t, E> was true for an enum E based on bool although the conversion changes values"),
  (["C02"], "static_vector: no leak if copying an element throws in a constructor", "the elements constructed so far were leaked if copying an element threw in a constructor"),
 (["C01", "C02"], "static_vector: inserting (a part of) one of the elements, and inserting a copy whose construction throws", "insert and emplace read an argument which refers to an own element after moving it, and left a destroyed element in the vector if constructing the new one threw"),
 (["C04"], "small_vector: consistent state if an allocation or the construction of an element throws in assign or resize", "a throwing copy or allocation in assign, operator= or resize left elements to be destroyed twice or which were never constructed"),
 (["C03", "C04"], "small_vector: inserting (a part of) one of the elements, and inserting a copy whose construction throws", "growing calls read an argument which refers to an own element after moving or freeing it, and counted an element whose construction threw"),
 (["C05"], "pod_vector: inserting one of the elements", "growing calls read an argument which refers to an own element after its block was released or the elements were moved"),
#FIXED
]
K = [  # id, property, unit, msg, inputs, what
 ("any-move-unequal", "C11", "unequal_move", "memory returned to an allocator it did not come from", [("emptied", "0")], "move assignment between anys with unequal stateful allocators returns the block to the target's allocator"),
#KNOWN
]
out = []
for props, subj, what in F:
    h = log.get("fix: " + subj)
    if not h: raise SystemExit("no commit: " + subj)
    for p in props: out.append(dict(id="fixed-%s-%s" % (p, h), property=p, status="fixed", commit=h, what=what, record=f"fixed: property={p} {h} {what}"))
for i, p, unit, msg, inputs, what in K:
    out.append(dict(id=i, property=p, status="known", unit=unit, msg=msg, inputs=[list(x) for x in inputs], what=what, record=f"KNOWN-FINDING: property={p} {what}"))
json.dump(dict(findings=out), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
miss = [s for s in log if s.startswith("fix: ") and s[5:] not in [x[1] for x in F]]
if miss: print("not recorded:", *miss, sep="\n")
