for w, b in [("uint8_t", 8), ("uint16_t", 16), ("uint32_t", 32), ("uint64_t", 64)]:
    d = [f"WORD={w}"]; sz = f"{b}-bit words; sizes 0,1,{b-1},{b},{b+1},{b+3},{2*b-1},{2*b},{2*b+1},{2*b+5}; all words (unused bits included) and bit indices are solver variables; "
    unit("C09", f"run_{b}", "dynamic_bitset.cpp", "db_run", sz + "every sequence of 1 of 18 operations, then growth", defs=d, shards=2 if b < 64 else 4, time=60, params=dict(ops=1), thorough=dict(params=dict(ops=2)))
    unit("C09", f"views_{b}", "dynamic_bitset.cpp", "db_views", sz + "0 or 1 operation, then indexing, iteration, all/any/none", defs=d, shards=2 if b < 64 else 8, time=90)
    unit("C09", f"huge_{b}", "dynamic_bitset.cpp", "db_huge", "every 64-bit size above 2^25", defs=d, time=60)
    if b < 32:
        unit("C09", f"copy_{b}", "dynamic_bitset.cpp", "db_copy", f"every range of up to {2*b+3} bits, every source offset up to {b+1}, contents are solver variables", defs=d, shards=4, time=60, tiers=("quick", "thorough") if b == 8 else ("thorough",))
        unit("C09", f"append_{b}", "dynamic_bitset.cpp", "db_append", f"every pair of sizes up to {2*b+3}, contents are solver variables", defs=d, shards=1 if b == 8 else 4, time=60, tiers=("quick", "thorough") if b == 8 else ("thorough",))
    if b > 8: unit("C09", f"copyb_{b}", "dynamic_bitset.cpp", "db_copy", f"ranges and offsets at word boundaries and +-1, up to {2*b+3} bits, contents are solver variables", defs=d, shards=2, time=60, params=dict(step=2))
unit("C09", "run2_8", "dynamic_bitset.cpp", "db_run", "8-bit words; every sequence of 2 of 18 operations", defs=["WORD=uint8_t"], shards=8, time=60, params=dict(ops=2, grow=0), tiers=("quick",))
unit("C09", "run_sv8", "dynamic_bitset.cpp", "db_run", "8-bit words in an itlib::small_vector of static capacity 1; every sequence of 1 of 18 operations, then growth", defs=["WORD=uint8_t", "SMALLBUF=1"], shards=2, time=60, params=dict(ops=1), thorough=dict(params=dict(ops=2)))
unit("C09", "views_sv16", "dynamic_bitset.cpp", "db_views", "16-bit words in an itlib::small_vector of static capacity 2; 0 or 1 operation, then indexing, iteration, all/any/none", defs=["WORD=uint16_t", "SMALLBUF=2"], shards=2, time=60)
for w, b in [("uint8_t", 8), ("uint64_t", 64)]:
    d = [f"WORD={w}"]
    unit("C09", f"long_{b}", "dynamic_bitset.cpp", "db_long", f"{b}-bit words; {'4 to 33' if b == 8 else '4 to 9'} words, one copy (aligned or not, at both ends), append, resize, single bit operation or 3 words of push_back", defs=d, shards=2)
    unit("C09", f"long_all_{b}", "dynamic_bitset.cpp", "db_long_all", f"{b}-bit words; 4 words and more, all bits equal but for up to two at every position", defs=d, shards=2)
    unit("C09", f"copy_self_{b}", "dynamic_bitset.cpp", "db_copy_self", f"{b}-bit words; copies within a bitset of {2*b+3} bits (not overlapping), " + ("every range" if b == 8 else "ranges at word boundaries and next to them"), defs=d, shards=2)
unit("C09", "fail", "dynamic_bitset.cpp", "db_fail", "8-bit words; 10 sizes, with or without spare capacity, one operation during which any allocation fails", defs=["WORD=uint8_t", "FAILBUF"], reach=("end", "threw"), shards=2)
