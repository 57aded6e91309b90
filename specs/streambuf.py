for n, d in [("out_vector", "std::vector<char>"), ("out_string", "std::string"), ("out_small", "small_vector<char, 3>"), ("out_keep", "a container whose moves copy"), ("out_static", "static_vector<char, 6>, within its capacity"), ("out_pod16", "pod_vector<char16_t>")]:
    unit("C15", n, "streambuf.cpp", n, f"{d}; reserve none or 0..2; every sequence of 3 writes, block writes of 0..3, seeks (every 64-bit offset below 2^63-4096), retrievals and clears, all contents", shards=1, time=60, thorough=dict(params=dict(ops=4, maxn=4), shards=2))
for n, d in [("in_char", "char"), ("in_char32", "char32_t")]:
    unit("C16", n, "streambuf.cpp", n, f"{d}; 0..3 characters with all contents (of 16 bits at most); every sequence of 3 reads, peeks, putbacks, block reads (every count), seeks (every 64-bit offset below 2^63-4096) and resets", shards=2, time=60, thorough=dict(params=dict(ops=4, maxn=3), shards=4))
A["C15"] = ["used through the public std::basic_streambuf interface, which is all a std::ostream uses; seeks with openmode out; characters other than the eof value of their type; block writes shorter than 2^31 characters"]
A["C16"] = ["used through the public std::basic_streambuf interface, which is all a std::istream uses; seeks with openmode in; block reads with non-negative counts"]
for n, d in [("vector", "std::vector<char>"), ("small", "small_vector<char, 40>"), ("pod16", "pod_vector<char16_t>")]:
    unit("C15", "out_big_" + n, "streambuf.cpp", "out_big_" + n, f"{d}; reserve 0 or 40; every sequence of 3 (thorough 4) block writes of 1, 7, 16, 33, 100 or 300 characters, single writes, seeks to the ends and the middle, retrievals; first and last characters are solver variables", shards=2, time=60, params=dict(ops=3), thorough=dict(params=dict(ops=4), shards=8))
unit("C16", "in_big", "streambuf.cpp", "in_big", "33, 300 or 700 characters; every sequence of 3 (thorough 4) block reads of 1, 7, 16, 33, 100, 300 or all, single reads, seeks to the ends and the middle", shards=2, time=60, params=dict(ops=3), thorough=dict(params=dict(ops=4), shards=8))
unit("C16", "in_huge", "streambuf.cpp", "in_huge", "4 sizes from 2^31-1 to 2^40 characters of 1 or 4 bytes: every sequence of 2 seeks from each origin to 0, 1, around 2^31 and 2^32, the middle, the end and beyond; positions only", params=dict(ops=2), thorough=dict(params=dict(ops=3)))
for n, d in (("vector", "std::vector whose allocations may fail"), ("static", "static_vector of 5 characters, writing beyond its capacity")):
    unit("C15", "out_fail_" + n, "streambuf.cpp", "out_fail_" + n, f"{d}; every sequence of 3 writes, block writes of 0..4, seeks and retrievals", reach=("end", "threw"), thorough=dict(params=dict(ops=4)))
for n, d in (("string", "std::string"), ("pod16", "pod_vector<char16_t>")):
    unit("C15", "out_long_" + n, "streambuf.cpp", "out_long_" + n, f"{d}; reserve 0 or 65536; 0..2 characters, then 32767 to 70001 characters at once or one by one, then a seek to an end or the middle and a write of 1 or 2", shards=4, time=60, engine=("--max-steps", "100000000"))
for n in ("char", "char16"):
    unit("C16", "in_long_" + n, "streambuf.cpp", "in_long_" + n, f"70001 characters of type {n}{'_t' if n != 'char' else ''}; 0..2 reads, a block read of 32768 to 2^62, a seek from each origin or none, a read", shards=2, time=60, engine=("--max-steps", "100000000"))
