for sd in ("c++11", "c++20"):
    t = sd.replace("+", "p")
    unit("C20", "histories_" + t, "ufunction.cpp", "histories", f"{sd}: every sequence of {4 if sd > "c++17" else 3} constructions, moves, assignments (of callables of three sizes and alignments, copyable ones, functions, null), destructions and calls on 2 ufunctions; all argument values", std=sd, params=dict(ops=4 if sd > "c++17" else 3), shards=2, thorough=dict(params=dict(ops=5), shards=4))
    unit("C20", "results_" + t, "ufunction.cpp", "results", f"{sd}: reference, converted, discarded results; exceptions; stateful and nested callables", std=sd)
A["C20"] = ["the noexcept operations are given enough memory and callables with non-throwing moves", "a null pointer to a function of another signature, and empty std::function objects, count as callables"]
for sd in ("c++11", "c++14", "c++17", "c++20"):
    t = sd.replace("+", "p")
    unit("C21", "exits_" + t, "sentry.cpp", "exits", f"{sd}: a loop body with three guards left normally or by return, break, continue or exception, in either iteration", std=sd)
    unit("C21", "kinds_" + t, "sentry.cpp", "kinds", f"{sd}: lvalue, const, rvalue, free functions and lambdas", std=sd)
    unit("C21", "unwinding_" + t, "sentry.cpp", "unwinding", f"{sd}: the function runs during unwinding", std=sd)
    if sd < "c++17": unit("C21", "moves_" + t, "sentry.cpp", "moves", f"{sd}: chains of up to 2 moves, destroyed in every rotation", std=sd)
    if sd < "c++17": unit("C21", "removes_" + t, "sentry.cpp", "removes", f"{sd}: 1..3 further guards, each moved from any earlier one", std=sd)
A["C21"] = ["functions do not throw; the moves of functions do not throw"]
