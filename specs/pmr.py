for sd in ("c++17", "c++20"):
    t = sd.replace("+", "p")
    unit("C28", "bytes_" + t, "pmr.cpp", "bytes", f"{sd}: every byte count, 13 alignments and the default one", std=sd)
    for n in ("1", "8", "12", "32"):
        unit("C28", f"objects_{n}_{t}", "pmr.cpp", "objects_" + n, f"{sd}: every 64-bit count of {n}-byte objects", std=sd)
    unit("C28", "make_" + t, "pmr.cpp", "make", f"{sd}: 5 types of objects (allocator-aware, over-aligned, of 70 KB), throwing constructors and resources", std=sd)
    unit("C28", "copies_" + t, "pmr.cpp", "copies", f"{sd}: copies, rebound and sliced allocators, use by a vector", std=sd)
A["C28"] = ["from C++20 on the functions are those of the standard library"]
