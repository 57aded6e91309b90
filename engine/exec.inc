// instruction semantics

static uint64_t foldConc(unsigned op, unsigned w, uint64_t a, uint64_t b) {
    uint64_t m = m64(w);
    switch (op) {
    case Instruction::Add: return (a + b) & m;
    case Instruction::Sub: return (a - b) & m;
    case Instruction::Mul: return (a * b) & m;
    case Instruction::And: return a & b;
    case Instruction::Or: return a | b;
    case Instruction::Xor: return a ^ b;
    case Instruction::Shl: return b >= w ? 0 : (a << b) & m;
    case Instruction::LShr: return b >= w ? 0 : a >> b;
    case Instruction::AShr: { int64_t x = (int64_t)(a << (64 - w)) >> (64 - w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
    case Instruction::UDiv: return a / b;
    case Instruction::URem: return a % b;
    case Instruction::SDiv: { int64_t x = (int64_t)(a << (64 - w)) >> (64 - w), y = (int64_t)(b << (64 - w)) >> (64 - w); if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case Instruction::SRem: { int64_t x = (int64_t)(a << (64 - w)) >> (64 - w), y = (int64_t)(b << (64 - w)) >> (64 - w); if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    }
    fatal("fold"); return 0;
}
static Op opOf(unsigned op) {
    switch (op) {
    case Instruction::Add: return OAdd; case Instruction::Sub: return OSub; case Instruction::Mul: return OMul;
    case Instruction::And: return OAnd; case Instruction::Or: return OOr; case Instruction::Xor: return OXor;
    case Instruction::Shl: return OShl; case Instruction::LShr: return OLShr; case Instruction::AShr: return OAShr;
    case Instruction::UDiv: return OUDiv; case Instruction::URem: return OURem; case Instruction::SDiv: return OSDiv; case Instruction::SRem: return OSRem;
    }
    fatal("op"); return OAdd;
}
// checks that c holds on all models; reports otherwise and continues with c assumed
static void require(State& s, E c, const char* kind, const std::string& msg) {
    ++st.checks;
    if (isC(c)) { if (c->c) return; violEnd(s, kind, msg); }
    E n = eNot(c); ModelP m;
    ++st.checkQueries;
    SatRes r = query(s, n, m);
    if (r == SAT) { report(s, kind, msg, m, c); if (!assumeC(s, c)) throw PathEnd(); return; }
    s.pc.push_back(c);
}
static V cmpV(const KInst& ki, unsigned pred, const V& a, const V& b, unsigned w) {
    if (!a.e && !b.e) {
        uint64_t x = a.c, y = b.c; int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
        switch (pred) {
        case CmpInst::ICMP_EQ: return cv(x == y); case CmpInst::ICMP_NE: return cv(x != y);
        case CmpInst::ICMP_ULT: return cv(x < y); case CmpInst::ICMP_ULE: return cv(x <= y); case CmpInst::ICMP_UGT: return cv(x > y); case CmpInst::ICMP_UGE: return cv(x >= y);
        case CmpInst::ICMP_SLT: return cv(sx < sy); case CmpInst::ICMP_SLE: return cv(sx <= sy); case CmpInst::ICMP_SGT: return cv(sx > sy); case CmpInst::ICMP_SGE: return cv(sx >= sy);
        }
    }
    E x = toE(a, w), y = toE(b, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return fromE(eBin(OEq, x, y)); case CmpInst::ICMP_NE: return fromE(eNot(eBin(OEq, x, y)));
    case CmpInst::ICMP_ULT: return fromE(eBin(OUlt, x, y)); case CmpInst::ICMP_ULE: return fromE(eBin(OUle, x, y));
    case CmpInst::ICMP_UGT: return fromE(eBin(OUlt, y, x)); case CmpInst::ICMP_UGE: return fromE(eBin(OUle, y, x));
    case CmpInst::ICMP_SLT: return fromE(eBin(OSlt, x, y)); case CmpInst::ICMP_SLE: return fromE(eBin(OSle, x, y));
    case CmpInst::ICMP_SGT: return fromE(eBin(OSlt, y, x)); case CmpInst::ICMP_SGE: return fromE(eBin(OSle, y, x));
    }
    fatal("icmp pred"); return V();
}
// forks on a condition; returns the side the current state follows, other side goes to target 'onOther'
template <typename FOther>
static bool forkOn(State& s, E c, FOther other) {
    if (isC(c)) return c->c != 0;
    bool side = modelTrue(s, c);
    E take = side ? c : eNot(c), no = side ? eNot(c) : c;
    ModelP m; 
    SatRes r = solve(s.pc, no, s.model, m);
    if (r == UNKNOWN && st.incomplete.empty()) st.incomplete = "solver returned unknown";
    if (r == SAT) {
        auto n = std::make_unique<State>(s);
        addC(*n, no, m);
        other(*n);
        pushWork(std::move(n));
        s.pc.push_back(take);
    } else ++st.infeasible;
    return side;
}
static V loadAgg(State& s, Type* t, const V& p, uint64_t align) {
    if (t->isStructTy()) {
        auto* L = DL->getStructLayout(cast<StructType>(t)); auto* a = new Agg;
        for (unsigned i = 0; i < t->getStructNumElements(); ++i) { V q = p; q.c += L->getElementOffset(i); a->f.push_back(loadAgg(s, t->getStructElementType(i), q, 1)); }
        return cv((uint64_t)a);
    }
    if (t->isArrayTy()) {
        auto* a = new Agg; uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
        for (unsigned i = 0; i < t->getArrayNumElements(); ++i) { V q = p; q.c += i * es; a->f.push_back(loadAgg(s, t->getArrayElementType(), q, 1)); }
        return cv((uint64_t)a);
    }
    return loadMem(s, p, DL->getTypeStoreSize(t), bitsOf(t), align);
}
static void storeAgg(State& s, Type* t, const V& p, const V& v) {
    if (t->isStructTy()) { auto* L = DL->getStructLayout(cast<StructType>(t)); auto* a = (Agg*)v.c;
        for (unsigned i = 0; i < t->getStructNumElements(); ++i) { V q = p; q.c += L->getElementOffset(i); storeAgg(s, t->getStructElementType(i), q, a->f[i]); } return; }
    if (t->isArrayTy()) { auto* a = (Agg*)v.c; uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
        for (unsigned i = 0; i < t->getArrayNumElements(); ++i) { V q = p; q.c += i * es; storeAgg(s, t->getArrayElementType(), q, a->f[i]); } return; }
    storeMem(s, p, v, DL->getTypeStoreSize(t), bitsOf(t), 1);
}
static E conditionOfFrame(State&) { return nullptr; }

// the compiler relies on the alignment of the pointers it passes
static void argAlign(State& s, const KInst& ki, const std::vector<V>& a, unsigned i, unsigned lenArg) {
    auto al = llvm::cast<llvm::CallBase>(ki.I)->getParamAlign(i);
    if (!al || al->value() < 2 || a[i].e || (!a[lenArg].e && a[lenArg].c == 0)) return;
    if (a[i].c & (al->value() - 1)) violEnd(s, "alignment", "misaligned memory copy or fill (needs " + std::to_string(al->value()) + ")");
}
static void doIntrinsic(State& s, const KInst& ki, const std::vector<V>& a);

static void callFunction(State& s, KFunction* k, const KInst& ki, std::vector<V> args, OnRet r = RetNormal) {
    std::vector<uint32_t> extra;
    for (size_t i = 0; i < ki.byval.size(); ++i) {
        uint64_t n = ki.byvalSize[i];
        uint64_t na = allocObj(s, n, 16, KStack, ANone);
        copyBytes(s, na, args[ki.byval[i]].c, n);
        args[ki.byval[i]] = cv(na); extra.push_back((uint32_t)(na >> 20));
    }
    pushFrame(s, k, args, r, 0);
    if (!extra.empty()) { Frame& f = wframe(s); f.allocas.insert(f.allocas.end(), extra.begin(), extra.end()); }
}

// an amount out of range is reported, but the path goes on as the hardware would: the compiler may have moved the shift to where its result is not used
static void shiftAmount(State& s, V& b, unsigned w) {
    if (!b.e) { if (b.c >= w) { report(s, "arithmetic", "shift amount out of range", s.model); b.c %= w; } return; }
    ++st.checks; ++st.checkQueries; E c = eBin(OUlt, b.e, eConst(w, w)); ModelP m;
    if (isC(c) ? c->c : query(s, eNot(c), m) != SAT) { if (!isC(c)) s.pc.push_back(c); return; }
    report(s, "arithmetic", "shift amount out of range", m ? m : s.model, c); b = fromE(eBin(OURem, b.e, eConst(w, w)));
}
static void step(State& s) {
    const Frame& f = rframe(s);
    const KInst& ki = f.f->bb[f.bb].in[f.pc];
    ++s.steps; ++st.steps;
    auto op = [&](int i, unsigned w) { return fetch(s, f, ki.ops[i], w); };
    switch (ki.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        V a = op(0, ki.w), b = op(1, ki.w); V r;
        bool div = ki.op == Instruction::UDiv || ki.op == Instruction::SDiv || ki.op == Instruction::URem || ki.op == Instruction::SRem;
        bool sh = ki.op == Instruction::Shl || ki.op == Instruction::LShr || ki.op == Instruction::AShr;
        if (div) { if (!b.e) { if (!b.c) violEnd(s, "arithmetic", "division by zero"); } else require(s, eNot(eBin(OEq, b.e, eConst(ki.w, 0))), "arithmetic", "division by zero"); }
        if (sh && opt.shiftCheck) shiftAmount(s, b, ki.w);
        if (!a.e && !b.e && ki.w <= 64) r = cv(foldConc(ki.op, ki.w, a.c, b.c));
        else r = fromE(eBin(opOf(ki.op), toE(a, ki.w), toE(b, ki.w)));
        Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::ICmp: {
        unsigned w = ki.w0; V r = cmpV(ki, cast<ICmpInst>(ki.I)->getPredicate(), op(0, w), op(1, w), w);
        Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::Trunc: { V a = op(0, ki.w0); V r = a.e ? fromE(eExtract(a.e, 0, ki.w)) : cv(a.c & m64(ki.w)); Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::ZExt: { V a = op(0, ki.w0); V r = a.e || ki.w > 64 ? fromE(eZExt(toE(a, ki.w0), ki.w)) : a; if (ki.w > 64 && !r.e) r.e = eConst(ki.w, r.c); Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::SExt: { V a = op(0, ki.w0); V r = a.e ? fromE(eSExt(a.e, ki.w)) : cv((uint64_t)((int64_t)(a.c << (64 - ki.w0)) >> (64 - ki.w0)) & m64(ki.w)); Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: { V a = op(0, ki.w); Frame& wf = wframe(s); wf.regs[ki.dest] = a; wf.pc++; return; }
    case Instruction::PtrToInt: { V a = op(0, 64); V r = ki.w == 64 ? a : a.e ? fromE(eExtract(a.e, 0, ki.w)) : cv(a.c & m64(ki.w)); Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::IntToPtr: { V a = op(0, ki.w0); V r = ki.w0 == 64 || !a.e ? a : fromE(eZExt(a.e, 64)); Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::Select: {
        V c = op(0, 1); V r;
        if (!c.e) r = c.c ? op(1, ki.w) : op(2, ki.w);
        else if (ki.agg) { bool v = concretize(s, c, 1); r = v ? op(1, 0) : op(2, 0); }
        else {
            int one = 0; // sizes and pointers: no select whose condition is decided on this path
            if (ki.w == 64 && !false) { bool m = modelTrue(s, c.e); ModelP mo; if (query(s, m ? eNot(c.e) : c.e, mo) == UNSAT) one = m ? 1 : 2; }
            r = one ? op(one, ki.w) : fromE(eIte(c.e, toE(op(1, ki.w), ki.w), toE(op(2, ki.w), ki.w)));
        }
        Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::GetElementPtr: {
        V p = op(0, 64); uint64_t c = ki.off; E e = p.e; c += p.e ? 0 : p.c;
        for (auto& g : ki.gep) {
            V i = fetch(s, f, g.slot, g.w);
            if (!i.e) { uint64_t x = i.c; if (g.w < 64) x = (uint64_t)((int64_t)(x << (64 - g.w)) >> (64 - g.w)); c += x * g.scale; }
            else { E x = eBin(OMul, eSExt(i.e, 64), eConst(64, g.scale)); e = e ? eBin(OAdd, e, x) : x; }
        }
        V r = e ? fromE(eBin(OAdd, e, eConst(64, c))) : cv(c);
        Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::Load: {
        V p = op(0, 64);
        auto* L = cast<LoadInst>(ki.I);
        V r;
        if (L->isAtomic()) {
            if (!schedPoint(s)) return;
            if (s.multi) raceAccess(s, p.c, ki.size, false, true);
            r = loadConc(s, p.c, ki.size, ki.w, ki.align);
            hbLoad(s, p.c, L->getOrdering()); logVisible(s);
            { Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; }
            if (spinCheck(s, ki, p.c, false)) blockCur(s, TSoft, p.c);
            return;
        }
        if (ki.agg) r = loadAgg(s, ki.I->getType(), p, ki.align);
        else r = loadMem(s, p, ki.size, ki.w, ki.align);
        Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::Store: {
        V v = op(0, ki.w), p = op(1, 64);
        auto* L = cast<StoreInst>(ki.I);
        if (L->isAtomic()) {
            if (!schedPoint(s)) return;
            if (s.multi) raceAccess(s, p.c, ki.size, true, true);
            storeConc(s, p.c, v, ki.size, ki.w, ki.align);
            hbStore(s, p.c, L->getOrdering(), false); logVisible(s);
            spinCheck(s, ki, p.c, true);
            wframe(s).pc++; return;
        }
        if (ki.agg) storeAgg(s, L->getValueOperand()->getType(), p, v);
        else storeMem(s, p, v, ki.size, ki.w, ki.align);
        wframe(s).pc++; return; }
    case Instruction::AtomicRMW: {
        if (!schedPoint(s)) return;
        auto* A = cast<AtomicRMWInst>(ki.I); V p = op(0, 64), v = op(1, ki.w0); unsigned w = ki.w0;
        if (s.multi) { raceAccess(s, p.c, ki.size, true, true); }
        V old = loadConc(s, p.c, ki.size, w, ki.align);
        E a = toE(old, w), b = toE(v, w), n;
        switch (A->getOperation()) {
        case AtomicRMWInst::Xchg: n = b; break; case AtomicRMWInst::Add: n = eBin(OAdd, a, b); break; case AtomicRMWInst::Sub: n = eBin(OSub, a, b); break;
        case AtomicRMWInst::And: n = eBin(OAnd, a, b); break; case AtomicRMWInst::Or: n = eBin(OOr, a, b); break; case AtomicRMWInst::Xor: n = eBin(OXor, a, b); break;
        case AtomicRMWInst::Nand: n = eBin(OXor, eBin(OAnd, a, b), eConst(w, maskw(w))); break;
        case AtomicRMWInst::Max: n = eIte(eBin(OSlt, a, b), b, a); break; case AtomicRMWInst::Min: n = eIte(eBin(OSlt, a, b), a, b); break;
        case AtomicRMWInst::UMax: n = eIte(eBin(OUlt, a, b), b, a); break; case AtomicRMWInst::UMin: n = eIte(eBin(OUlt, a, b), a, b); break;
        default: unsupported(s, "atomicrmw");
        }
        storeConc(s, p.c, fromE(n), ki.size, w, ki.align);
        hbLoad(s, p.c, A->getOrdering()); hbStore(s, p.c, A->getOrdering(), true); logVisible(s);
        { Frame& wf = wframe(s); wf.regs[ki.dest] = old; wf.pc++; }
        if (spinCheck(s, ki, p.c, n != a)) blockCur(s, TSoft, p.c);
        return; }
    case Instruction::AtomicCmpXchg: {
        if (s.multi && !T(s).granted) { schedPoint(s); return; }
        auto* A = cast<AtomicCmpXchgInst>(ki.I); V p = op(0, 64), c = op(1, ki.w0), v = op(2, ki.w0); unsigned w = ki.w0;
        V old = loadConc(s, p.c, ki.size, w, ki.align);
        V eqv = fromE(eBin(OEq, toE(old, w), toE(c, w)));
        bool eq = concretize(s, eqv, 1);
        if (s.multi) T(s).granted = false;
        if (s.multi) raceAccess(s, p.c, ki.size, eq, true);
        if (eq) { storeConc(s, p.c, v, ki.size, w, ki.align); hbLoad(s, p.c, A->getSuccessOrdering()); hbStore(s, p.c, A->getSuccessOrdering(), true); }
        else hbLoad(s, p.c, A->getFailureOrdering());
        logVisible(s);
        auto* a = new Agg; a->f = {old, cv(eq)};
        { Frame& wf = wframe(s); wf.regs[ki.dest] = cv((uint64_t)a); wf.pc++; }
        if (spinCheck(s, ki, p.c, eq)) blockCur(s, TSoft, p.c);
        return; }
    case Instruction::Fence: {
        auto o = cast<FenceInst>(ki.I)->getOrdering();
        if (s.multi) { Thread& t = T(s); if (isAcq(o)) vcJoin(t.vc, t.acqPend); if (isRel(o)) { t.relFence = t.vc; if ((int)t.vc.size() <= s.cur) t.vc.resize(s.cur + 1, 0); t.vc[s.cur]++; } }
        wframe(s).pc++; return; }
    case Instruction::Alloca: {
        V n = op(0, 64); uint64_t cnt = concretize(s, n, ki.w0 ? ki.w0 : 32);
        uint64_t a = allocObj(s, ki.size * cnt, ki.align, KStack, ANone, ki.I);
        Frame& wf = wframe(s); wf.allocas.push_back((uint32_t)(a >> 20)); wf.regs[ki.dest] = cv(a); wf.pc++; return; }
    case Instruction::Br: {
        if (ki.ops.empty()) { enterBlock(s, ki.succ[0]); return; }
        V c = op(0, 1);
        if (!c.e) { enterBlock(s, c.c ? ki.succ[0] : ki.succ[1]); return; }
        bool side = forkOn(s, c.e, [&](State& n) { enterBlock(n, eEval(c.e, *n.model) ? ki.succ[0] : ki.succ[1]); });
        enterBlock(s, side ? ki.succ[0] : ki.succ[1]); return; }
    case Instruction::Switch: {
        V c = op(0, ki.w0);
        uint64_t v;
        if (c.e) {
            v = (uint64_t)eEval(c.e, *s.model);
            // group all values going to the default destination
            bool isDef = true; for (auto& k : ki.cases) if (k.first == v) isDef = false;
            E cond;
            if (!isDef) cond = eBin(OEq, c.e, eConst(ki.w0, v));
            else { cond = eConst(1, 1); for (auto& k : ki.cases) cond = eBin(OAnd, cond, eNot(eBin(OEq, c.e, eConst(ki.w0, k.first)))); }
            ModelP m;
            if (!isC(cond)) { E no = eNot(cond); if (query(s, no, m) == SAT) { auto n = std::make_unique<State>(s); addC(*n, no, m); pushWork(std::move(n)); } s.pc.push_back(cond); }
        } else v = c.c;
        for (auto& k : ki.cases) if (k.first == v) { enterBlock(s, k.second); return; }
        enterBlock(s, ki.succ[0]); return; }
    case Instruction::Ret: {
        V r; bool has = !ki.ops.empty(); if (has) r = op(0, ki.w0);
        doReturn(s, r, has); return; }
    case Instruction::Unreachable: violEnd(s, "unreachable", "code marked unreachable was reached (missing return?)");
    case Instruction::ExtractValue: {
        V a = op(0, 0); for (unsigned i : ki.idx) { if (!a.c) unsupported(s, "extractvalue of undef"); V n = ((Agg*)a.c)->f[i]; a = n; }
        Frame& wf = wframe(s); wf.regs[ki.dest] = a; wf.pc++; return; }
    case Instruction::InsertValue: {
        V a = op(0, 0), v = op(1, 64);
        std::function<V(V, unsigned)> ins = [&](V x, unsigned d) { auto* n = new Agg(*(Agg*)x.c); if (d + 1 == ki.idx.size()) n->f[ki.idx[d]] = v; else n->f[ki.idx[d]] = ins(n->f[ki.idx[d]], d + 1); return cv((uint64_t)n); };
        V r = ins(a, 0);
        Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::Resume: { V a = op(0, 0); uint64_t exc = ((Agg*)a.c)->f[0].c; unwind(s, exc, true); return; }
    case Instruction::Call: case Instruction::Invoke: {
        if (ki.intrinsic == ~0u) { // inline asm: only empty barriers are accepted
            auto* IA = cast<InlineAsm>(cast<CallBase>(ki.I)->getCalledOperand());
            if (auto as = IA->getAsmString(); !as.empty() && as != "pause" && as != "rep; nop" && as != "nop") unsupported(s, "inline assembly");
            advance(s, ki); return;
        }
        std::vector<V> a; size_t n = ki.argw.size(); a.reserve(n);
        for (size_t i = 0; i < n; ++i) a.push_back(fetch(s, f, ki.ops[i], ki.argw[i]));
        if (ki.callee) { callFunction(s, ki.callee, ki, a); return; }
        if (ki.intrinsic) { doIntrinsic(s, ki, a); return; }
        if (ki.builtin) { ki.builtin(s, ki, a); return; }
        if (ki.ext) {
            std::string nm = ki.ext->getName().str();
            std::string d = demangle(nm);
            // constructors/destructors of std exception classes carry no behaviour we observe
            if (nm.rfind("_ZNSt", 0) == 0 && (d.find("error::") != std::string::npos || d.find("exception::") != std::string::npos || d.find("out_of_range::") != std::string::npos || d.find("invalid_argument::") != std::string::npos || d.find("bad_") != std::string::npos)) { advance(s, ki); return; }
            unsupported(s, "call of external function " + d);
        }
        V fp = fetch(s, f, ki.ops[n], 64);
        uint64_t ad = concretize(s, fp, 64);
        auto it = g_fnByAddr.find(ad);
        if (it == g_fnByAddr.end()) violEnd(s, "memory", ad ? "call through invalid function pointer" : "call through null function pointer");
        KFunction* k = it->second;
        if (k->F->isDeclaration()) {
            auto b = g_builtins.find(k->name);
            if (b != g_builtins.end()) { b->second(s, ki, a); return; }
            unsupported(s, "indirect call of external " + k->pretty);
        }
        callFunction(s, k, ki, a); return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        V a = op(0, ki.w), b = op(1, ki.w); if (ki.w != 32 && ki.w != 64) unsupported(s, "floating point width");
        V r = fromE(eFp(ki.op == Instruction::FAdd ? OFAdd : ki.op == Instruction::FSub ? OFSub : ki.op == Instruction::FMul ? OFMul : OFDiv, ki.w, toE(a, ki.w), toE(b, ki.w)));
        Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::FNeg: { V a = op(0, ki.w); if (ki.w > 64) unsupported(s, "floating point width"); V r = fromE(eBin(OXor, toE(a, ki.w), eConst(ki.w, (u128)1 << (ki.w - 1)))); Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::FCmp: {
        V a = op(0, ki.w0), b = op(1, ki.w0); if (ki.w0 != 32 && ki.w0 != 64) unsupported(s, "floating point width");
        V r = fromE(eFp(OFCmp, 1, toE(a, ki.w0), toE(b, ki.w0), cast<FCmpInst>(ki.I)->getPredicate() & 15));
        Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::FPExt: case Instruction::FPTrunc: { V a = op(0, ki.w0); if (ki.w > 64 || ki.w0 > 64) unsupported(s, "floating point width"); V r = fromE(eFp(OFCvt, ki.w, toE(a, ki.w0))); Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::UIToFP: case Instruction::SIToFP: {
        V a = op(0, ki.w0); if (ki.w > 64 || ki.w0 > 64) unsupported(s, "floating point width");
        V r = fromE(eFp(ki.op == Instruction::UIToFP ? OUToF : OSToF, ki.w, toE(a, ki.w0)));
        Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    case Instruction::FPToUI: case Instruction::FPToSI: {
        V a = op(0, ki.w0); if (ki.w0 > 64 || ki.w > 64) unsupported(s, "floating point width");
        V r = fromE(eFp(ki.op == Instruction::FPToUI ? OFToU : OFToS, ki.w, toE(a, ki.w0)));
        Frame& wf = wframe(s); wf.regs[ki.dest] = r; wf.pc++; return; }
    default: unsupported(s, std::string("instruction ") + ki.I->getOpcodeName());
    }
}

static void retv(State& s, const KInst& ki, const V& v) { setReg(s, ki, v); advance(s, ki); }

static void doMemMove(State& s, const KInst& ki, const V& d, const V& sr, const V& n, bool overlapOk) {
    uint64_t len = concretize(s, n, 64);
    uint64_t dst = concretize(s, d, 64), src = concretize(s, sr, 64);
    if (!overlapOk && len && dst != src && dst < src + len && src < dst + len) violEnd(s, "memory", "memcpy of overlapping ranges");
    if (len > (1ull << 20)) { violEnd(s, "memory", "memory copy of absurd length " + std::to_string(len)); }
    copyBytes(s, dst, src, len);
}
static void doIntrinsic(State& s, const KInst& ki, const std::vector<V>& a) {
    unsigned w = ki.w;
    switch (ki.intrinsic) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: argAlign(s, ki, a, 0, 2); argAlign(s, ki, a, 1, 2); doMemMove(s, ki, a[0], a[1], a[2], false); advance(s, ki); return;
    case Intrinsic::memmove: argAlign(s, ki, a, 0, 2); argAlign(s, ki, a, 1, 2); doMemMove(s, ki, a[0], a[1], a[2], true); advance(s, ki); return;
    case Intrinsic::memset: { argAlign(s, ki, a, 0, 2); uint64_t len = concretize(s, a[2], 64), d = concretize(s, a[0], 64); if (len > (1ull << 20)) violEnd(s, "memory", "memset of absurd length"); setBytes(s, d, a[1], len); advance(s, ki); return; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
        if (!a[1].e) { const ObjP* o = slotPtr(s, a[1].c); if (o && (*o)->base == a[1].c) { Obj& x = wobj(s, a[1].c); if (ki.intrinsic == Intrinsic::lifetime_start) { x.freed = false; std::fill(x.fl.begin(), x.fl.end(), 0); } else x.freed = true; } }
        advance(s, ki); return; }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
        unsigned ow = ki.argw[0]; bool sg = ki.intrinsic == Intrinsic::smul_with_overflow || ki.intrinsic == Intrinsic::sadd_with_overflow || ki.intrinsic == Intrinsic::ssub_with_overflow;
        bool mul = ki.intrinsic == Intrinsic::umul_with_overflow || ki.intrinsic == Intrinsic::smul_with_overflow; bool add = ki.intrinsic == Intrinsic::uadd_with_overflow || ki.intrinsic == Intrinsic::sadd_with_overflow;
        unsigned W = mul ? 2 * ow : ow + 1; if (sg && !mul) W = ow + 1;
        E x = sg ? eSExt(toE(a[0], ow), W) : eZExt(toE(a[0], ow), W), y = sg ? eSExt(toE(a[1], ow), W) : eZExt(toE(a[1], ow), W);
        E r; E ov;
        if (mul && !sg && !isC(x) && isC(y) && y->c) { // overflow iff x > max/y
            ov = eBin(OUlt, eConst(ow, m64(ow) / (uint64_t)y->c), toE(a[0], ow)); r = eBin(OMul, toE(a[0], ow), toE(a[1], ow));
        } else if (mul && sg && !isC(x) && isC(y) && ow <= 64 && !isC(toE(a[0], ow)) && (int64_t)(isC(toE(a[1], ow)) ? (uint64_t)toE(a[1], ow)->c << (64 - ow) : 0) > 0) { // multiplication by a positive constant
            int64_t k = (int64_t)((uint64_t)toE(a[1], ow)->c << (64 - ow)) >> (64 - ow), mx = (int64_t)(m64(ow) >> 1), mn = -mx - 1; E v = toE(a[0], ow);
            ov = eBin(OOr, eBin(OSlt, eConst(ow, (uint64_t)(mx / k) & m64(ow)), v), eBin(OSlt, v, eConst(ow, (uint64_t)(mn / k) & m64(ow)))); r = eBin(OMul, v, toE(a[1], ow));
        } else if (!mul) {
            E v = toE(a[0], ow), u = toE(a[1], ow); r = eBin(add ? OAdd : OSub, v, u);
            if (!sg) ov = add ? eBin(OUlt, r, v) : eBin(OUlt, v, u);
            else ov = eExtract(eBin(OAnd, eBin(OXor, v, add ? r : u), eBin(OXor, add ? u : v, r)), ow - 1, 1);
        } else {
            E full = eBin(mul ? OMul : add ? OAdd : OSub, x, y);
            r = eExtract(full, 0, ow);
            ov = eNot(eBin(OEq, sg ? eSExt(r, W) : eZExt(r, W), full));
        }
        auto* g = new Agg; g->f = {fromE(r), fromE(ov)};
        retv(s, ki, cv((uint64_t)g)); return; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: retv(s, ki, a[0]); return;
    case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::sideeffect: advance(s, ki); return;
    case Intrinsic::is_constant: retv(s, ki, cv(0)); return;
    case Intrinsic::objectsize: retv(s, ki, cv(m64(w))); return;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: retv(s, ki, a[0]); return;
    case Intrinsic::eh_typeid_for: retv(s, ki, cv(typeId(a[0].c))); return;
    case Intrinsic::trap: violEnd(s, "undefined", "trap executed");
    case Intrinsic::ubsantrap: violEnd(s, "undefined", "signed integer overflow");
    case Intrinsic::debugtrap: violEnd(s, "undefined", "trap executed");
    case Intrinsic::abs: { E x = toE(a[0], w); retv(s, ki, fromE(eIte(eBin(OSlt, x, eConst(w, 0)), eBin(OSub, eConst(w, 0), x), x))); return; }
    case Intrinsic::umin: { E x = toE(a[0], w), y = toE(a[1], w); retv(s, ki, fromE(eIte(eBin(OUlt, x, y), x, y))); return; }
    case Intrinsic::umax: { E x = toE(a[0], w), y = toE(a[1], w); retv(s, ki, fromE(eIte(eBin(OUlt, x, y), y, x))); return; }
    case Intrinsic::smin: { E x = toE(a[0], w), y = toE(a[1], w); retv(s, ki, fromE(eIte(eBin(OSlt, x, y), x, y))); return; }
    case Intrinsic::smax: { E x = toE(a[0], w), y = toE(a[1], w); retv(s, ki, fromE(eIte(eBin(OSlt, x, y), y, x))); return; }
    case Intrinsic::ctpop: { E x = toE(a[0], w), r = eConst(w, 0); for (unsigned i = 0; i < w; ++i) r = eBin(OAdd, r, eZExt(eExtract(x, i, 1), w)); retv(s, ki, fromE(r)); return; }
    case Intrinsic::ctlz: { E x = toE(a[0], w), r = eConst(w, w); for (unsigned i = 0; i < w; ++i) r = eIte(eExtract(x, i, 1), eConst(w, w - 1 - i), r); retv(s, ki, fromE(r)); return; }
    case Intrinsic::cttz: { E x = toE(a[0], w), r = eConst(w, w); for (int i = w - 1; i >= 0; --i) r = eIte(eExtract(x, i, 1), eConst(w, i), r); retv(s, ki, fromE(r)); return; }
    case Intrinsic::bswap: { E x = toE(a[0], w), r = eExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = eConcat(r, eExtract(x, i, 8)); retv(s, ki, fromE(r)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: if (a[2].e) { // symbolic amount: double width shift
        if (w > 32) { V k = cv(concretize(s, a[2], w)); auto b = a; b[2] = k; doIntrinsic(s, ki, b); return; }
        bool l = ki.intrinsic == Intrinsic::fshl; E k = eZExt(eBin(OURem, a[2].e, eConst(w, w)), 2 * w), xy = eConcat(toE(a[1], w), toE(a[0], w));
        retv(s, ki, fromE(l ? eExtract(eBin(OShl, xy, k), w, w) : eExtract(eBin(OLShr, xy, k), 0, w))); return; }
        if (ki.intrinsic == Intrinsic::fshr) { unsigned k = a[2].c % w; E x = toE(a[0], w), y = toE(a[1], w); retv(s, ki, fromE(k ? eBin(OOr, eBin(OShl, x, eConst(w, w - k)), eBin(OLShr, y, eConst(w, k))) : y)); return; }
        { unsigned k = a[2].c % w; E x = toE(a[0], w), y = toE(a[1], w); retv(s, ki, fromE(k ? eBin(OOr, eBin(OShl, x, eConst(w, k)), eBin(OLShr, y, eConst(w, w - k))) : x)); return; }
    case Intrinsic::uadd_sat: { E x = toE(a[0], w), y = toE(a[1], w), r = eBin(OAdd, x, y); retv(s, ki, fromE(eIte(eBin(OUlt, r, x), eConst(w, maskw(w)), r))); return; }
    case Intrinsic::usub_sat: { E x = toE(a[0], w), y = toE(a[1], w); retv(s, ki, fromE(eIte(eBin(OUlt, x, y), eConst(w, 0), eBin(OSub, x, y)))); return; }
    case Intrinsic::stacksave: retv(s, ki, cv(0)); return;
    case Intrinsic::stackrestore: advance(s, ki); return;
    case Intrinsic::ptrmask: retv(s, ki, fromE(eBin(OAnd, toE(a[0], 64), toE(a[1], 64)))); return;
    case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: if (w > 64) unsupported(s, "floating point width"); retv(s, ki, fromE(eFp(OFRound, w, toE(a[0], w), nullptr, ki.intrinsic == Intrinsic::floor ? 0 : ki.intrinsic == Intrinsic::ceil ? 1 : 2))); return;
    case Intrinsic::fabs: if (w > 64) unsupported(s, "floating point width"); retv(s, ki, fromE(eBin(OAnd, toE(a[0], w), eConst(w, maskw(w - 1))))); return;
    case Intrinsic::fmuladd: if (w > 64) unsupported(s, "floating point width"); retv(s, ki, fromE(eFp(OFAdd, w, eFp(OFMul, w, toE(a[0], w), toE(a[1], w)), toE(a[2], w)))); return;
    default: {
        std::string nm = cast<CallBase>(ki.I)->getCalledFunction()->getName().str();
        if (nm == "llvm.x86.sse2.pause") { advance(s, ki); return; }
        unsupported(s, "intrinsic " + nm); }
    }
}
