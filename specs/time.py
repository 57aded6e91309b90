unit("C26", "arithmetic", "time.cpp", "arithmetic", "all pairs of 64-bit second counts and durations whose sum or difference is representable, durations of integral ticks (days and minutes in 32 bits, milliseconds and nanoseconds in 64, and narrower ones) and of floating point ticks (seconds, milliseconds and minutes, all values)", shards=4, std="c++11")
unit("C26", "calendar", "time.cpp", "calendar", "all times and all fields, the C library's results being arbitrary")
unit("C26", "format", "time.cpp", "format", "13 formats with texts of 33 lengths from 0 to 1026 (twice that for a repeated conversion)")
unit("C26", "threads", "time.cpp", "threads", "two concurrent conversions, every interleaving of their calls", threads=True, preempt=4)
A["C26"] = ["sums and differences are representable in 64 bits", "time, timegm, mktime, gmtime_r, localtime_r and std::strftime are stand-ins with the behaviour ISO C and POSIX give them (arbitrary results); std::strftime fails only if the buffer is too small", "counts of floating point ticks are finite and below 9e18 (minutes: 1e17)"]
unit("C26", "format_long", "time.cpp", "formatLong", "texts of 12 lengths from 2046 to 131073", engine=("--max-steps", "20000000"))
