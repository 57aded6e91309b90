B = "two anys, each empty or holding one of 4 types (throwing copy, move-only, plain, over-aligned), then every sequence of 2 of 15 operations incl. throwing copies%s; values are solver variables"
unit("C11", "default", "any.cpp", "any_default", B % "", shards=2, time=60, thorough=dict(params=dict(ops=3), shards=8))
unit("C11", "alloc", "any.cpp", "any_alloc", B % ", failing allocations, with a block-recording allocator", shards=2, time=60, thorough=dict(params=dict(ops=3), shards=8))
unit("C11", "own", "any.cpp", "any_own", "assigning an any stored in, or a part of, the own value")
unit("C11", "unequal", "any.cpp", "any_unequal", "anys with unequal stateful allocators: copies, move construction, assignments of values")
unit("C11", "unequal_move", "any.cpp", "any_unequal_move", "move assignment between anys with unequal stateful allocators")
unit("C11", "types", "any.cpp", "any_types", "every one of 27 types (1 byte to 200 KB, alignments 1 to 256) in exactly aligned memory: every way to store and pass it on, every other type refused")
unit("C11", "types_default", "any.cpp", "any_types_default", "the same 27 types with the default allocator")
unit("C11", "decay", "any.cpp", "any_decay", "arrays, string literals, functions, const objects and base references as arguments")
