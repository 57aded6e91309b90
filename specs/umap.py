unit("C27", "history", "umap.cpp", "history", "3 operations of 17 kinds on keys of every value, hash values that all collide or are one bit of the key", std="c++20", shards=4, thorough=dict(params=dict(ops=4), shards=8))
unit("C27", "plain", "umap.cpp", "plain", "3 operations on a map whose hash is not transparent", std="c++20", thorough=dict(params=dict(ops=5)))
A["C27"] = ["equal keys and lookup keys have equal hashes", "the rehash policy of libstdc++ (in its shared library) is replaced by a stand-in with the same contract and maximal load factor 1"]
unit("C27", "big", "umap.cpp", "big", "maps of 7 or 18 elements, then one operation of 17 kinds with every key; hash values that all collide or are three bits of the key", std="c++20", shards=2, params=dict(ops=1), thorough=dict(params=dict(ops=2), shards=8))
unit("C27", "throw", "umap.cpp", "throwing", "0..2 elements, one operation of 6 kinds on every key, any of the first 3 constructions of a key or value throws", std="c++20", reach=("end", "threw"), thorough=dict(params=dict(n=4, ops=2), shards=4))
