// models of the environment: C/C++ runtime functions and the harness interface
#define B(name) static void b_##name(State& s, const KInst& ki, const std::vector<V>& a)

static bool tooBig(uint64_t n) { return n > 0x80000; }
static uint64_t allocSize(State& s, const V& v) {
    if (!v.e) return v.c;
    // split into "too big to succeed" and small sizes
    uint64_t val = (uint64_t)eEval(v.e, *s.model);
    if (tooBig(val)) {
        E small = eBin(OUle, v.e, eConst(64, 0x80000)); ModelP m;
        if (query(s, small, m) == SAT) { auto n = std::make_unique<State>(s); addC(*n, small, m); pushWork(std::move(n)); s.pc.push_back(eNot(small)); }
        return ~0ull;
    }
    return concretize(s, v, 64);
}
B(malloc) { uint64_t n = allocSize(s, a[0]); if (tooBig(n)) { retv(s, ki, cv(0)); return; } retv(s, ki, cv(allocObj(s, n, 16, KHeap, AMalloc, ki.I))); }
B(calloc) { uint64_t x = concretize(s, a[0], 64), y = concretize(s, a[1], 64); if (tooBig(x) || tooBig(y) || tooBig(x * y)) { retv(s, ki, cv(0)); return; } uint64_t p = allocObj(s, x * y, 16, KHeap, AMalloc, ki.I); setBytes(s, p, cv(0), x * y); retv(s, ki, cv(p)); }
B(aligned_alloc) { uint64_t al = concretize(s, a[0], 64), n = allocSize(s, a[1]); if (tooBig(n)) { retv(s, ki, cv(0)); return; } retv(s, ki, cv(allocObj(s, n, al, KHeap, AMalloc, ki.I))); }
B(posix_memalign) { uint64_t al = concretize(s, a[1], 64), n = allocSize(s, a[2]); if (tooBig(n)) { retv(s, ki, cv(12)); return; } uint64_t p = allocObj(s, n, al, KHeap, AMalloc, ki.I); storeConc(s, a[0].c, cv(p), 8, 64, 8); retv(s, ki, cv(0)); }
static void doFree(State& s, uint64_t p, AllocKind k, uint64_t size, bool sized, uint64_t align) {
    if (!p) return;
    const ObjP* op = slotPtr(s, p);
    if (!op) violEnd(s, "memory", "free of invalid pointer");
    const Obj& o = **op;
    if (o.kind != KHeap) violEnd(s, "memory", "free of non-heap memory");
    if (o.freed) violEnd(s, "memory", "double free");
    if (o.base != p) violEnd(s, "memory", "free of interior pointer");
    if (o.ak != k) violEnd(s, "memory", "mismatched allocation and deallocation functions");
    if (sized && o.size != size) violEnd(s, "memory", "sized deallocation with wrong size (" + std::to_string(size) + " of " + std::to_string(o.size) + ")");
    if (s.multi) raceAccess(s, p, o.size, true, false);
    wobj(s, p).freed = true; --s.heapLive;
}
B(free) { uint64_t p = concretize(s, a[0], 64); doFree(s, p, AMalloc, 0, false, 0); advance(s, ki); }
B(realloc) {
    uint64_t p = concretize(s, a[0], 64), n = allocSize(s, a[1]);
    if (tooBig(n)) { retv(s, ki, cv(0)); return; }
    uint64_t q = allocObj(s, n, 16, KHeap, AMalloc, ki.I);
    if (p) { const ObjP* op = slotPtr(s, p); if (!op || (*op)->kind != KHeap || (*op)->freed || (*op)->base != p || (*op)->ak != AMalloc) violEnd(s, "memory", "realloc of invalid pointer"); uint64_t m = std::min(n, (*op)->size); copyBytes(s, q, p, m); doFree(s, p, AMalloc, 0, false, 0); }
    retv(s, ki, cv(q));
}
static void opNew(State& s, const KInst& ki, const V& sz, uint64_t al, AllocKind k, bool nothrow) {
    uint64_t n = allocSize(s, sz);
    if (tooBig(n)) { if (nothrow) { retv(s, ki, cv(0)); return; } throwStd(s, "_ZTISt9bad_alloc"); return; }
    retv(s, ki, cv(allocObj(s, n, al, KHeap, k, ki.I)));
}
B(new_) { opNew(s, ki, a[0], 16, ANew, false); }
B(newa) { opNew(s, ki, a[0], 16, ANewArr, false); }
B(new_al) { opNew(s, ki, a[0], concretize(s, a[1], 64), ANew, false); }
B(newa_al) { opNew(s, ki, a[0], concretize(s, a[1], 64), ANewArr, false); }
B(new_nt) { opNew(s, ki, a[0], 16, ANew, true); }
B(newa_nt) { opNew(s, ki, a[0], 16, ANewArr, true); }
B(del) { doFree(s, concretize(s, a[0], 64), ANew, 0, false, 0); advance(s, ki); }
B(del_sz) { uint64_t p = concretize(s, a[0], 64); doFree(s, p, ANew, concretize(s, a[1], 64), true, 0); advance(s, ki); }
B(dela) { doFree(s, concretize(s, a[0], 64), ANewArr, 0, false, 0); advance(s, ki); }
B(dela_sz) { uint64_t p = concretize(s, a[0], 64); doFree(s, p, ANewArr, concretize(s, a[1], 64), true, 0); advance(s, ki); }
B(del_al) { doFree(s, concretize(s, a[0], 64), ANew, 0, false, 0); advance(s, ki); }

B(memcpy) { doMemMove(s, ki, a[0], a[1], a[2], false); retv(s, ki, a[0]); }
B(memmove) { doMemMove(s, ki, a[0], a[1], a[2], true); retv(s, ki, a[0]); }
B(memset) { uint64_t len = concretize(s, a[2], 64), d = concretize(s, a[0], 64); if (len > (1ull << 20)) violEnd(s, "memory", "memset of absurd length"); V b = a[1].e ? fromE(eExtract(a[1].e, 0, 8)) : cv(a[1].c & 255); setBytes(s, d, b, len); retv(s, ki, a[0]); }
B(memcmp) {
    uint64_t n = concretize(s, a[2], 64), p = concretize(s, a[0], 64), q = concretize(s, a[1], 64);
    if (n > (1ull << 20)) violEnd(s, "memory", "memcmp of absurd length");
    E r = eConst(32, 0);
    if (n) { checkAccess(s, p, n, false, 1, "memcmp"); checkAccess(s, q, n, false, 1, "memcmp"); }
    if (s.multi && n) { raceAccess(s, p, n, false, false); raceAccess(s, q, n, false, false); }
    for (uint64_t i = n; i-- > 0;) {
        E x = byteAt(s, p + i), y = byteAt(s, q + i);
        r = eIte(eBin(OEq, x, y), r, eIte(eBin(OUlt, x, y), eConst(32, -1), eConst(32, 1)));
    }
    retv(s, ki, fromE(r));
}
B(strlen) {
    uint64_t p = concretize(s, a[0], 64); uint64_t n = 0;
    // find the first position that may be zero
    E cond = nullptr;
    while (true) {
        V b = loadConc(s, p + n, 1, 8, 1, "strlen");
        if (!b.e) { if (b.c == 0) break; ++n; continue; }
        E z = eBin(OEq, b.e, eConst(8, 0));
        // fork: copy re-executes with the other outcome fixed
        bool side = modelTrue(s, z); E no = side ? eNot(z) : z; ModelP m;
        if (query(s, no, m) == SAT) { auto c = std::make_unique<State>(s); addC(*c, no, m); pushWork(std::move(c)); s.pc.push_back(side ? z : eNot(z)); }
        if (side) break;
        ++n;
    }
    (void)cond;
    retv(s, ki, cv(n));
}
static void cmpStr(State& s, const KInst& ki, const std::vector<V>& a, uint64_t lim) {
    uint64_t p = concretize(s, a[0], 64), q = concretize(s, a[1], 64);
    for (uint64_t n = 0; n < lim; ++n) {
        V x = loadConc(s, p + n, 1, 8, 1, "strcmp"), y = loadConc(s, q + n, 1, 8, 1, "strcmp");
        if (!x.e && !y.e) { if (x.c != y.c) { retv(s, ki, cv(x.c < y.c ? 0xffffffffu : 1)); return; } if (!x.c) { retv(s, ki, cv(0)); return; } continue; }
        E ex = toE(x, 8), ey = toE(y, 8), stop = eBin(OOr, eNot(eBin(OEq, ex, ey)), eBin(OEq, ex, eConst(8, 0)));
        bool side = modelTrue(s, stop); E no = side ? eNot(stop) : stop; ModelP m;
        if (query(s, no, m) == SAT) { auto c = std::make_unique<State>(s); addC(*c, no, m); pushWork(std::move(c)); s.pc.push_back(side ? stop : eNot(stop)); }
        if (side) { retv(s, ki, fromE(eIte(eBin(OUlt, ex, ey), eConst(32, 0xffffffffu), eIte(eBin(OEq, ex, ey), eConst(32, 0), eConst(32, 1))))); return; }
    }
    retv(s, ki, cv(0));
}
B(strcmp) { cmpStr(s, ki, a, ~0ull); }
B(strncmp) { cmpStr(s, ki, a, concretize(s, a[2], 64)); }
B(memchr) {
    uint64_t n = concretize(s, a[2], 64), p = concretize(s, a[0], 64); E c = eExtract(toE(a[1], 32), 0, 8);
    E r = eConst(64, 0);
    if (n) checkAccess(s, p, n, false, 1, "memchr");
    for (uint64_t i = n; i-- > 0;) r = eIte(eBin(OEq, byteAt(s, p + i), c), eConst(64, p + i), r);
    V v = fromE(r); uint64_t k = concretize(s, v, 64); retv(s, ki, cv(k));
}
// the length of the string at p, splitting on which position holds the first zero
static uint64_t strLen(State& s, uint64_t p, uint64_t lim = ~0ull) {
    for (uint64_t n = 0; ; ++n) {
        if (n == lim) return n;
        V b = loadConc(s, p + n, 1, 8, 1, "string");
        if (!b.e) { if (b.c == 0) return n; continue; }
        E z = eBin(OEq, b.e, eConst(8, 0)); bool side = modelTrue(s, z); E no = side ? eNot(z) : z; ModelP m;
        if (query(s, no, m) == SAT) { auto c = std::make_unique<State>(s); addC(*c, no, m); pushWork(std::move(c)); s.pc.push_back(side ? z : eNot(z)); }
        if (side) return n;
    }
}
B(strnlen) { uint64_t n = concretize(s, a[1], 64); retv(s, ki, cv(strLen(s, concretize(s, a[0], 64), n))); }
B(strcpy) { uint64_t n = strLen(s, concretize(s, a[1], 64)); doMemMove(s, ki, a[0], a[1], cv(n + 1), false); retv(s, ki, a[0]); }
B(strcat) { uint64_t d = concretize(s, a[0], 64), k = strLen(s, d), n = strLen(s, concretize(s, a[1], 64)); doMemMove(s, ki, cv(d + k), a[1], cv(n + 1), false); retv(s, ki, a[0]); }
B(strncpy) { uint64_t d = concretize(s, a[0], 64), lim = concretize(s, a[2], 64), n = strLen(s, concretize(s, a[1], 64), lim); if (n) doMemMove(s, ki, cv(d), a[1], cv(n), false); if (n < lim) setBytes(s, d + n, cv(0), lim - n); retv(s, ki, a[0]); }
B(strchr) { uint64_t p = concretize(s, a[0], 64), n = strLen(s, p); E c = eExtract(toE(a[1], 32), 0, 8), r = eConst(64, 0); for (uint64_t i = n + 1; i-- > 0;) r = eIte(eBin(OEq, byteAt(s, p + i), c), eConst(64, p + i), r); V v = fromE(r); retv(s, ki, cv(concretize(s, v, 64))); }
B(strrchr) { uint64_t p = concretize(s, a[0], 64), n = strLen(s, p); E c = eExtract(toE(a[1], 32), 0, 8), r = eConst(64, 0); for (uint64_t i = 0; i <= n; ++i) r = eIte(eBin(OEq, byteAt(s, p + i), c), eConst(64, p + i), r); V v = fromE(r); retv(s, ki, cv(concretize(s, v, 64))); }
B(memrchr) { uint64_t n = concretize(s, a[2], 64), p = concretize(s, a[0], 64); E c = eExtract(toE(a[1], 32), 0, 8), r = eConst(64, 0); if (n) checkAccess(s, p, n, false, 1, "memrchr"); for (uint64_t i = 0; i < n; ++i) r = eIte(eBin(OEq, byteAt(s, p + i), c), eConst(64, p + i), r); V v = fromE(r); retv(s, ki, cv(concretize(s, v, 64))); }
B(mempcpy) { uint64_t d = concretize(s, a[0], 64), n = concretize(s, a[2], 64); doMemMove(s, ki, cv(d), a[1], cv(n), false); retv(s, ki, cv(d + n)); }
B(wmemcpy) { uint64_t n = concretize(s, a[2], 64); doMemMove(s, ki, a[0], a[1], cv(n * 4), false); retv(s, ki, a[0]); }
B(wmemmove) { uint64_t n = concretize(s, a[2], 64); doMemMove(s, ki, a[0], a[1], cv(n * 4), true); retv(s, ki, a[0]); }
B(wmemset) { uint64_t d = concretize(s, a[0], 64), n = concretize(s, a[2], 64); for (uint64_t i = 0; i < n; ++i) storeConc(s, d + 4 * i, a[1], 4, 32, 4); retv(s, ki, a[0]); }
B(wcslen) { uint64_t p = concretize(s, a[0], 64), n = 0; while (concretize(s, loadConc(s, p + 4 * n, 4, 32, 4), 32)) ++n; retv(s, ki, cv(n)); }
B(wmemcmp) {
    uint64_t n = concretize(s, a[2], 64), p = concretize(s, a[0], 64), q = concretize(s, a[1], 64); E r = eConst(32, 0);
    for (uint64_t i = n; i-- > 0;) { E x = toE(loadConc(s, p + 4 * i, 4, 32, 4), 32), y = toE(loadConc(s, q + 4 * i, 4, 32, 4), 32); r = eIte(eBin(OEq, x, y), r, eIte(eBin(OSlt, x, y), eConst(32, -1), eConst(32, 1))); }
    retv(s, ki, fromE(r));
}
// dynamic_cast: the classes of which an object is made, by its type info
static const ConstantStruct* tiInit(uint64_t ti, std::string& kind) {
    auto it = g_gvByAddr.find(ti); if (it == g_gvByAddr.end() || !it->second->hasInitializer()) return nullptr;
    auto* C = dyn_cast<ConstantStruct>(it->second->getInitializer()); if (!C) return nullptr;
    auto* v = C->getOperand(0)->stripPointerCasts(); if (auto* ce = dyn_cast<ConstantExpr>(C->getOperand(0))) v = ce->getOperand(0)->stripPointerCasts();
    kind = v->getName().str(); return C;
}
static bool tiSame(uint64_t x, uint64_t y) { return x == y || (!tiName(x).empty() && tiName(x) == tiName(y)); }
static void tiBases(State& s, uint64_t ti, uint64_t at, bool pub, uint64_t want, std::set<uint64_t>& found) { // public subobjects of class want
    if (tiSame(ti, want)) { if (pub) found.insert(at); return; }
    std::string kind; auto* C = tiInit(ti, kind); if (!C) return;
    if (kind.find("si_class") != std::string::npos) tiBases(s, evalConstV(C->getOperand(2)).c, at, pub, want, found);
    else if (kind.find("vmi_class") != std::string::npos)
        for (unsigned i = 4; i + 1 < C->getNumOperands(); i += 2) {
            int64_t f = (int64_t)evalConstV(C->getOperand(i + 1)).c, off = f >> 8;
            if (f & 1) { uint64_t vt = concretize(s, loadConc(s, at, 8, 64, 8), 64); off = (int64_t)concretize(s, loadConc(s, vt + off, 8, 64, 8), 64); }
            tiBases(s, evalConstV(C->getOperand(i)).c, at + off, pub && (f & 2), want, found);
        }
}
B(dynamic_cast) {
    uint64_t p = concretize(s, a[0], 64), dst = concretize(s, a[2], 64), vt = concretize(s, loadConc(s, p, 8, 64, 8), 64);
    uint64_t top = p + concretize(s, loadConc(s, vt - 16, 8, 64, 8), 64), ti = concretize(s, loadConc(s, vt - 8, 8, 64, 8), 64);
    std::set<uint64_t> f; tiBases(s, ti, top, true, dst, f);
    retv(s, ki, cv(f.size() == 1 ? *f.begin() : 0));
}
B(new_al_nt) { opNew(s, ki, a[0], concretize(s, a[1], 64), ANew, true); }
B(newa_al_nt) { opNew(s, ki, a[0], concretize(s, a[1], 64), ANewArr, true); }
// exceptions
B(cxa_allocate_exception) { uint64_t o = allocObj(s, concretize(s, a[0], 64), 16, KHeap, AExc); --s.heapLive; s.excs[o] = Exc(); retv(s, ki, cv(o)); }
B(cxa_free_exception) { s.excs.erase(a[0].c); wobj(s, a[0].c).freed = true; advance(s, ki); }
B(cxa_throw) { Exc& e = s.excs[a[0].c]; e.tinfo = a[1].c; e.dtor = a[2].c; e.refs = 1; ++T(s).uncaught; unwind(s, a[0].c, false); }
B(cxa_begin_catch) {
    uint64_t o = a[0].c; auto& e = s.excs[o];
    if (e.handlers < 0) e.handlers = -e.handlers;
    e.handlers++; --T(s).uncaught; T(s).caught.push_back(o);
    retv(s, ki, a[0]);
}
static void releaseExc(State& s, uint64_t o, const KInst& ki) { // drops one reference; continues after ki
    auto& e = s.excs[o];
    if (--e.refs <= 0) {
        if (e.dtor) { auto it = g_fnByAddr.find(e.dtor); if (it != g_fnByAddr.end() && !it->second->F->isDeclaration()) { pushFrame(s, it->second, {cv(o)}, RetFreeExc, o); return; } }
        s.excs.erase(o); wobj(s, o).freed = true;
    }
    advance(s, ki);
}
B(cxa_end_catch) {
    if (T(s).caught.empty()) violEnd(s, "exception", "end_catch without catch");
    uint64_t o = T(s).caught.back(); auto& e = s.excs[o];
    if (e.rethrown) { // being rethrown: stays alive
        T(s).caught.pop_back(); e.handlers--; if (e.handlers == 0) e.rethrown = false; advance(s, ki); return; }
    T(s).caught.pop_back();
    if (--e.handlers == 0) { releaseExc(s, o, ki); return; }
    advance(s, ki);
}
B(cxa_rethrow) {
    if (T(s).caught.empty()) violEnd(s, "exception", "rethrow without exception (terminate)");
    uint64_t o = T(s).caught.back(); s.excs[o].rethrown = true; ++T(s).uncaught; unwind(s, o, false);
}
B(cxa_get_exception_ptr) { retv(s, ki, a[0]); }
B(cxa_bad) { violEnd(s, "exception", "pure or deleted virtual function called"); }
B(terminate) { violEnd(s, "exception", "std::terminate called"); }
B(abort) { violEnd(s, "abort", "abort called"); }
B(assert_fail) { std::string m = readStr(s, a[0].c); violEnd(s, "assert", "assertion failed: " + m); }
B(uncaught) { retv(s, ki, cv(T(s).uncaught)); }
B(uncaught1) { retv(s, ki, cv(T(s).uncaught > 0)); }
B(current_exception) { uint64_t o = T(s).caught.empty() ? 0 : T(s).caught.back(); if (o) s.excs[o].refs++; storeConc(s, a[0].c, cv(o), 8, 64, 8); advance(s, ki); }
B(excptr_addref) { uint64_t o = loadConc(s, a[0].c, 8, 64, 8).c; if (o) s.excs[o].refs++; advance(s, ki); }
B(excptr_release) { uint64_t o = loadConc(s, a[0].c, 8, 64, 8).c; storeConc(s, a[0].c, cv(0), 8, 64, 8); if (o) { releaseExc(s, o, ki); return; } advance(s, ki); }
B(rethrow_exception) { uint64_t o = loadConc(s, a[0].c, 8, 64, 8).c; if (!o) violEnd(s, "exception", "rethrow of null exception_ptr"); s.excs[o].refs++; ++T(s).uncaught; unwind(s, o, false); }
// an exception held by an exception_ptr may be caught again after its handler count dropped to 0
#define THROWER(fn, ti) B(fn) { throwStd(s, ti); }
THROWER(t_runtime, "_ZTISt13runtime_error") THROWER(t_overflow, "_ZTISt14overflow_error") THROWER(t_range, "_ZTISt11range_error") THROWER(t_domain, "_ZTISt12domain_error") THROWER(t_badexc, "_ZTISt13bad_exception") THROWER(t_badtypeid, "_ZTISt10bad_typeid")
THROWER(t_length, "_ZTISt12length_error") THROWER(t_logic, "_ZTISt11logic_error") THROWER(t_oor, "_ZTISt12out_of_range") THROWER(t_badalloc, "_ZTISt9bad_alloc")
THROWER(t_bnl, "_ZTISt20bad_array_new_length") THROWER(t_bfc, "_ZTISt17bad_function_call") THROWER(t_cast, "_ZTISt8bad_cast") THROWER(t_inv, "_ZTISt16invalid_argument") THROWER(t_sys, "_ZTISt12system_error") THROWER(t_bwp, "_ZTISt12bad_weak_ptr")
B(nop) { advance(s, ki); }
B(ret0) { retv(s, ki, cv(0)); }
B(ret1) { retv(s, ki, cv(1)); }
B(guard_acquire) { V g = loadConc(s, a[0].c, 1, 8, 1); retv(s, ki, cv(!g.e && g.c ? 0 : 1)); }
B(guard_release) { storeConc(s, a[0].c, cv(1), 1, 8, 1); advance(s, ki); }
B(pthread_self) { retv(s, ki, cv(0x7f000000 + s.cur)); }
// pthread mutexes
static bool mutexLock(State& s, uint64_t m, bool tryOnly, int& res) {
    auto& o = s.mutexes[m];
    if (o.second == 0 || (o.first == -2)) {}
    if (o.second > 0) {
        if (o.first == s.cur && !tryOnly) violEnd(s, "nontermination", "mutex locked twice by its owner (deadlock)");
        if (tryOnly) { res = 16; return true; }
        return false;
    }
    o = {s.cur, 1}; res = 0;
    if (s.multi) { auto it = s.tx.rel.find(m | (1ull << 61)); if (it != s.tx.rel.end()) vcJoin(T(s).vc, it->second); }
    return true;
}
static void mutexUnlock(State& s, uint64_t m) {
    auto& o = s.mutexes[m];
    if (o.second == 0 || o.first != s.cur) violEnd(s, "locking", "mutex unlocked by a thread that does not own it");
    o = {-1, 0};
    if (s.multi) { Thread& t = T(s); vcJoin(s.tx.rel[m | (1ull << 61)], t.vc); if ((int)t.vc.size() <= s.cur) t.vc.resize(s.cur + 1, 0); t.vc[s.cur]++; wake(s, m); }
}
B(mutex_lock) { if (!schedPoint(s)) return; int r; if (!mutexLock(s, a[0].c, false, r)) { blockCur(s, TBlocked, a[0].c); return; } logVisible(s); wakeAllSoft(s); retv(s, ki, cv(0)); }
B(mutex_trylock) { if (!schedPoint(s)) return; int r; mutexLock(s, a[0].c, true, r); logVisible(s); if (!r) wakeAllSoft(s); bool sp = r && spinCheck(s, ki, a[0].c, false); retv(s, ki, cv(r)); if (sp) blockCur(s, TSoft, a[0].c); }
B(mutex_unlock) { if (!schedPoint(s)) return; mutexUnlock(s, a[0].c); logVisible(s); wakeAllSoft(s); retv(s, ki, cv(0)); }
// harness interface
static std::string freshName(State& s, const std::string& n) { return n + "#" + std::to_string(s.nvar++); }
B(vf_sym) { std::string n = readStr(s, a[0].c); unsigned w = (unsigned)a[1].c; E e = eVar(freshName(s, n), w); V v; v.e = e; s.inputs.push_back({n, v, (uint16_t)w}); V r; r = fromE(eZExt(e, 64)); retv(s, ki, r); }
B(vf_choice) {
    std::string n = readStr(s, a[0].c); uint64_t cnt = concretize(s, a[1], 64);
    E e = eVar(freshName(s, n), 32); ++st.choices;
    uint32_t vi = (uint32_t)e->c;
    bool sharding = !s.shardDone && opt.nshards > 1; uint64_t base = s.shIdx * cnt, prod = s.shProd * cnt;
    auto setup = [&](State& x, uint64_t k) {
        auto m = std::make_shared<Model>(*x.model); m->set(vi, k); askChoice(x, e, k);
        addC(x, eBin(OEq, e, eConst(32, k)), m);
        V v; v.e = e; x.inputs.push_back({n, v, 32}); if (sharding) { x.shIdx = base + k; x.shProd = prod; }
        retv(x, ki, cv(k));
    };
    if (cnt == 0) throw PathEnd();
    std::vector<uint64_t> ks;
    if (sharding && prod >= 8 * opt.nshards) {
        s.shardDone = true;
        for (uint64_t k = 0; k < cnt; ++k) if (((base + k) * 0x9E3779B97F4A7C15ull >> 33) % opt.nshards == opt.shard) ks.push_back(k);
        if (ks.empty()) throw PathEnd();
    } else for (uint64_t k = 0; k < cnt; ++k) ks.push_back(k);
    for (size_t i = ks.size(); i-- > 1;) { auto x = std::make_unique<State>(s); setup(*x, ks[i]); pushWork(std::move(x)); }
    setup(s, ks[0]);
}
B(vf_concretize) { uint64_t v = concretize(s, a[0], 64); retv(s, ki, cv(v)); }
static V boolOf(const V& v) { if (!v.e) return v; return v.e->w == 1 ? v : fromE(eNot(eBin(OEq, v.e, eConst(v.e->w, 0)))); }
B(vf_assume) { V c = boolOf(a[0]); if (!c.e) { if (!c.c) { ++st.assumeEnds; throw PathEnd(); } } else if (!assumeC(s, c.e)) { ++st.assumeEnds; throw PathEnd(); } advance(s, ki); }
B(vf_check) {
    V c = boolOf(a[0]);
    if (c.e) { std::string m = readStr(s, a[1].c); require(s, c.e, "check", m); }
    else { ++st.checks; if (!c.c) { std::string m = readStr(s, a[1].c); violEnd(s, "check", m); } }
    advance(s, ki);
}
B(vf_fail) { violEnd(s, "check", readStr(s, a[0].c)); }
B(vf_reach) { std::string n = readStr(s, a[0].c); auto it = g_reachIdx.find(n); uint32_t i; if (it == g_reachIdx.end()) { i = g_reachNames.size(); g_reachNames.push_back(n); g_reachIdx[n] = i; } else i = it->second; s.reached.insert(i); advance(s, ki); }
B(vf_observe) { s.obs.push_back(a[0]); advance(s, ki); }
static std::map<uint64_t, uint64_t>& wlive(State& s) { if (!s.live) s.live = std::make_shared<std::map<uint64_t, uint64_t>>(); else if (s.live.use_count() > 1) s.live = std::make_shared<std::map<uint64_t, uint64_t>>(*s.live); return *s.live; }
B(vf_live_add) { uint64_t p = concretize(s, a[0], 64); wlive(s)[p] = a[1].c; advance(s, ki); }
B(vf_live_del) { uint64_t p = concretize(s, a[0], 64); bool had = s.live && s.live->count(p); if (had) wlive(s).erase(p); retv(s, ki, cv(had)); }
B(vf_live_get) { uint64_t p = concretize(s, a[0], 64); uint64_t r = 0; if (s.live) { auto it = s.live->find(p); if (it != s.live->end()) r = it->second; } retv(s, ki, cv(r)); }
B(vf_live_count) { uint64_t n = 0; if (s.live) for (auto& p : *s.live) if (!a[0].c || p.second == a[0].c) ++n; retv(s, ki, cv(n)); }
B(vf_no_leak_check) { s.leakCheck = false; advance(s, ki); }
B(vf_spawn) {
    auto it = g_fnByAddr.find(a[0].c); if (it == g_fnByAddr.end()) fatal("vf_spawn");
    if (!s.multi) { s.multi = true; T(s).vc.assign(1, 1); }
    int id = (int)s.th.size(); s.th.emplace_back();
    Thread& p = T(s); Thread& c = s.th.back();
    c.vc = p.vc; c.vc.resize(id + 1, 0); c.vc[id] = 1; p.vc[s.cur]++;
    int cur = s.cur; s.cur = id; pushFrame(s, it->second, {a[1]}, RetThreadEnd, 0); s.cur = cur;
    retv(s, ki, cv(id));
}
B(vf_join_all) {
    bool wait = false; for (size_t i = 0; i < s.th.size(); ++i) if ((int)i != s.cur && s.th[i].status != TDone) wait = true;
    if (wait) { blockCur(s, TJoining, 0); return; }
    for (size_t i = 0; i < s.th.size(); ++i) if ((int)i != s.cur) vcJoin(T(s).vc, s.th[i].vc);
    T(s).granted = false; s.multi = false; s.tx = ThreadsX(); s.th.resize(1); // only main is left: sequential again
    advance(s, ki);
}
B(vf_self) { retv(s, ki, cv(s.cur)); }
B(vf_yield) { if (!schedPoint(s)) return; logVisible(s); advance(s, ki); }
B(vf_acq) { if (s.multi) { auto it = s.tx.rel.find(a[0].c | (1ull << 60)); if (it != s.tx.rel.end()) vcJoin(T(s).vc, it->second); } advance(s, ki); }
B(vf_rel) { if (s.multi) { Thread& t = T(s); vcJoin(s.tx.rel[a[0].c | (1ull << 60)], t.vc); t.vc[s.cur]++; } advance(s, ki); }
// blocks the calling thread until another thread calls vf_wake on the same address
B(vf_block) { if (s.multi) { wframe(s).pc++; blockCur(s, TBlocked, a[0].c); return; } violEnd(s, "nontermination", "blocks forever (single thread)"); }
B(vf_wake) { wake(s, a[0].c); advance(s, ki); }
// a harness-level visible operation: scheduling point only; the following code up to the next visible op is atomic
B(vf_visible) { if (!schedPoint(s)) return; logVisible(s); advance(s, ki); }
B(vf_is_engine) { retv(s, ki, cv(1)); }
B(vf_thorough) { retv(s, ki, cv(getenv("VF_THOROUGH") != nullptr)); }
B(vf_param) { std::string n = "VF_" + readStr(s, a[0].c); const char* e = getenv(n.c_str()); retv(s, ki, e ? cv(strtoull(e, nullptr, 0)) : a[1]); }
// std library pieces that live in libstdc++.so
B(prime_next) { // _Prime_rehash_policy::_M_next_bkt(this, n): a fixed small growth policy (any policy >= n is allowed)
    uint64_t n = concretize(s, a[1], 64); uint64_t r = n <= 1 ? 1 : n <= 2 ? 2 : n <= 5 ? 5 : n <= 13 ? 13 : n <= 29 ? 29 : n <= 59 ? 59 : n | 1;
    storeConc(s, a[0].c + 8, cv(r), 8, 64, 8); retv(s, ki, cv(r)); }
B(prime_need) { // _M_need_rehash(this, n_bkt, n_elt, n_ins) -> pair<bool,size_t> (returned as {i8, i64})
    uint64_t nb = concretize(s, a[1], 64), ne = concretize(s, a[2], 64), ni = concretize(s, a[3], 64);
    auto* g = new Agg; uint64_t need = ne + ni;
    if (need > nb) { uint64_t n = std::max(need, nb * 2); uint64_t r = n <= 2 ? 2 : n <= 5 ? 5 : n <= 13 ? 13 : n <= 29 ? 29 : n <= 59 ? 59 : n | 1; storeConc(s, a[0].c + 8, cv(r), 8, 64, 8); g->f = {cv(1), cv(r)}; }
    else g->f = {cv(0), cv(0)};
    retv(s, ki, cv((uint64_t)g)); }
B(hash_bytes) { // deterministic, cheap: a function of contents
    uint64_t p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); E h = eConst(64, 5381);
    if (n) checkAccess(s, p, n, false, 1, "hash");
    for (uint64_t i = 0; i < n; ++i) h = eBin(OXor, eBin(OMul, h, eConst(64, 33)), eZExt(byteAt(s, p + i), 64));
    retv(s, ki, fromE(h)); }

static void initBuiltins() {
    auto& m = g_builtins;
    m["malloc"] = b_malloc; m["calloc"] = b_calloc; m["free"] = b_free; m["realloc"] = b_realloc; m["aligned_alloc"] = b_aligned_alloc; m["posix_memalign"] = b_posix_memalign;
    m["_Znwm"] = b_new_; m["_Znam"] = b_newa; m["_ZnwmSt11align_val_t"] = b_new_al; m["_ZnamSt11align_val_t"] = b_newa_al; m["_ZnwmRKSt9nothrow_t"] = b_new_nt; m["_ZnamRKSt9nothrow_t"] = b_newa_nt;
    m["_ZdlPv"] = b_del; m["_ZdlPvm"] = b_del_sz; m["_ZdaPv"] = b_dela; m["_ZdaPvm"] = b_dela_sz; m["_ZdlPvSt11align_val_t"] = b_del_al; m["_ZdlPvmSt11align_val_t"] = b_del_sz; m["_ZdaPvSt11align_val_t"] = b_dela; m["_ZdlPvRKSt9nothrow_t"] = b_del;
    m["memcpy"] = b_memcpy; m["memmove"] = b_memmove; m["memset"] = b_memset; m["memcmp"] = b_memcmp; m["bcmp"] = b_memcmp; m["strlen"] = b_strlen; m["strcmp"] = b_strcmp; m["strncmp"] = b_strncmp; m["memchr"] = b_memchr;
    m["__cxa_allocate_exception"] = b_cxa_allocate_exception; m["__cxa_free_exception"] = b_cxa_free_exception; m["__cxa_throw"] = b_cxa_throw; m["__cxa_begin_catch"] = b_cxa_begin_catch;
    m["__cxa_end_catch"] = b_cxa_end_catch; m["__cxa_rethrow"] = b_cxa_rethrow; m["__cxa_get_exception_ptr"] = b_cxa_get_exception_ptr; m["__cxa_pure_virtual"] = b_cxa_bad; m["__cxa_deleted_virtual"] = b_cxa_bad;
    m["_ZSt9terminatev"] = b_terminate; m["__clang_call_terminate"] = b_terminate; m["abort"] = b_abort; m["__assert_fail"] = b_assert_fail; m["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = b_abort;
    m["_ZSt19uncaught_exceptionsv"] = b_uncaught; m["_ZSt18uncaught_exceptionv"] = b_uncaught1;
    m["_ZSt17current_exceptionv"] = b_current_exception; m["_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"] = b_excptr_addref; m["_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"] = b_excptr_release;
    m["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = b_rethrow_exception;
    m["_ZSt20__throw_length_errorPKc"] = b_t_length; m["_ZSt19__throw_logic_errorPKc"] = b_t_logic; m["_ZSt20__throw_out_of_rangePKc"] = b_t_oor; m["_ZSt24__throw_out_of_range_fmtPKcz"] = b_t_oor; m["_ZSt17__throw_bad_allocv"] = b_t_badalloc;
    m["_ZSt28__throw_bad_array_new_lengthv"] = b_t_bnl; m["_ZSt25__throw_bad_function_callv"] = b_t_bfc; m["_ZSt16__throw_bad_castv"] = b_t_cast; m["_ZSt24__throw_invalid_argumentPKc"] = b_t_inv; m["_ZSt20__throw_system_errori"] = b_t_sys; m["__cxa_throw_bad_array_new_length"] = b_t_bnl; m["__cxa_bad_cast"] = b_t_cast;
    m["_ZSt20__throw_bad_weak_ptrv"] = b_t_bwp; m["_ZSt21__throw_runtime_errorPKc"] = b_t_runtime; m["_ZSt22__throw_overflow_errorPKc"] = b_t_overflow; m["_ZSt19__throw_range_errorPKc"] = b_t_range; m["_ZSt20__throw_domain_errorPKc"] = b_t_domain; m["_ZSt21__throw_bad_exceptionv"] = b_t_badexc; m["_ZSt18__throw_bad_typeidv"] = b_t_badtypeid; m["__cxa_bad_typeid"] = b_t_badtypeid;
    m["strnlen"] = b_strnlen; m["strcpy"] = b_strcpy; m["strcat"] = b_strcat; m["strncpy"] = b_strncpy; m["strchr"] = b_strchr; m["strrchr"] = b_strrchr; m["memrchr"] = b_memrchr; m["mempcpy"] = m["__mempcpy"] = b_mempcpy; m["wmemcpy"] = b_wmemcpy; m["wmemmove"] = b_wmemmove; m["wmemset"] = b_wmemset; m["wcslen"] = b_wcslen; m["wmemcmp"] = b_wmemcmp;
    m["__dynamic_cast"] = b_dynamic_cast; m["_ZnwmSt11align_val_tRKSt9nothrow_t"] = b_new_al_nt; m["_ZnamSt11align_val_tRKSt9nothrow_t"] = b_newa_al_nt; m["_ZdlPvSt11align_val_tRKSt9nothrow_t"] = b_del_al; m["_ZdaPvSt11align_val_tRKSt9nothrow_t"] = b_dela; m["_ZdaPvRKSt9nothrow_t"] = b_dela; m["_ZdaPvmSt11align_val_t"] = b_dela_sz;
    m["nanosleep"] = m["clock_nanosleep"] = m["usleep"] = b_ret0; m["pthread_mutex_init"] = m["pthread_mutex_destroy"] = b_ret0;
    m["__cxa_atexit"] = b_ret0; m["__cxa_thread_atexit"] = b_ret0; m["__cxa_guard_acquire"] = b_guard_acquire; m["__cxa_guard_release"] = b_guard_release; m["__cxa_guard_abort"] = b_nop;
    m["_ZNSt8ios_base4InitC1Ev"] = b_nop; m["_ZNSt8ios_base4InitD1Ev"] = b_nop; m["_ZNSt6localeC1Ev"] = b_nop; m["_ZNSt6localeD1Ev"] = b_nop; m["_ZNSt6localeC1ERKS_"] = b_nop; m["_ZNSt6localeaSERKS_"] = b_nop;
    m["pthread_self"] = b_pthread_self; m["pthread_mutex_lock"] = b_mutex_lock; m["pthread_mutex_unlock"] = b_mutex_unlock; m["pthread_mutex_trylock"] = b_mutex_trylock; m["__pthread_key_create"] = b_ret0; m["sched_yield"] = b_ret0;
    m["_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm"] = b_prime_next; m["_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm"] = b_prime_need; m["_ZSt11_Hash_bytesPKvmm"] = b_hash_bytes;
#define VB(n) m[#n] = b_##n;
    VB(vf_sym) VB(vf_choice) VB(vf_concretize) VB(vf_assume) VB(vf_check) VB(vf_fail) VB(vf_reach) VB(vf_observe) VB(vf_live_add) VB(vf_live_del) VB(vf_live_get) VB(vf_live_count) VB(vf_no_leak_check)
    VB(vf_spawn) VB(vf_join_all) VB(vf_self) VB(vf_yield) VB(vf_acq) VB(vf_rel) VB(vf_block) VB(vf_wake) VB(vf_visible) VB(vf_is_engine) VB(vf_thorough) VB(vf_param)
}
