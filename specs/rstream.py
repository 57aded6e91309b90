unit("C29", "plain", "rstream.cpp", "plain", "contents of 0..6 arbitrary bytes, 3 reads of 0..8 bytes looks at the next or formatted characters, from 3 positions, buffers refilled in pieces of 1..3", shards=4, time=120, thorough=dict(params=dict(ops=4)))
unit("C29", "redirect", "rstream.cpp", "redirect", "contents of 0..6 arbitrary bytes, every redirected position, 2 reads of 0..8 bytes looks at the next or formatted characters, also nested", params=dict(ops=2), shards=4, time=120, thorough=dict(params=dict(ops=3)))
A["C29"] = ["the wrapped stream is good and seekable when it is redirected", "ios_base and locale (in libstdc++'s shared library) are replaced by stand-ins; the stream functions are libstdc++'s template code"]
for n, w in (("char", "char"), ("wide", "char16_t")):
    unit("C29", "far_" + n, "rstream.cpp", "far_" + n, f"a stream of 2^62 {w}: every position of the stream and of the redirection, also nested; reads of 0..4; failed or not")
unit("C29", "throwing", "rstream.cpp", "throwing", "contents of 0..6 arbitrary bytes, every redirected position, a read of 0..8 bytes, streams which throw on failure, on the end or both", reach=("end", "threw"))
