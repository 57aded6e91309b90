#include "vfse.h"
#include <unordered_set>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/Coroutines/CoroEarly.h>
#include <llvm/Transforms/Coroutines/CoroSplit.h>
#include <llvm/Transforms/Coroutines/CoroCleanup.h>
#include <chrono>
#include <cstring>
#include <cmath>
#include <fstream>
#include <algorithm>
#include <unistd.h>
using namespace llvm;

// ------------------------------------------------------------------ globals
static LLVMContext g_lc;
static std::unique_ptr<Module> g_mod;
static const DataLayout* DL;
static std::unordered_map<const Function*, KFunction*> g_fn;
static std::unordered_map<uint64_t, KFunction*> g_fnByAddr;
static std::unordered_map<const GlobalVariable*, uint64_t> g_gaddr;
static std::unordered_map<uint64_t, std::string> g_gname;
static std::unordered_map<uint64_t, const GlobalVariable*> g_gvByAddr;
static std::unordered_map<std::string, uint64_t> g_extG;
static std::vector<std::pair<V, bool>> g_consts; // value, isUndef
static std::vector<const Constant*> g_constLL;
static std::unordered_map<const Constant*, int> g_constIdx;
static std::unordered_map<std::string, BuiltinFn> g_builtins;
static State* g_initState = nullptr;
static std::vector<std::unique_ptr<State>> g_work;
static uint64_t g_nextAddr = 0x1000;

struct Opts {
    double timeLimit = 60; uint64_t maxSteps = 3000000; int preempt = 3; unsigned maxViol = 3;
    unsigned shard = 0, nshards = 1; unsigned samples = 12; uint64_t seed = 1; double graceAfterViol = 8; size_t memMB = 6000;
    bool verbose = false; bool shiftCheck = true;
} opt;

struct Stats {
    uint64_t states = 1, forks = 0, paths = 0, assumeEnds = 0, steps = 0, checks = 0, checkQueries = 0, choices = 0, infeasible = 0, switches = 0, visible = 0, uninit = 0, ites = 0, caughtForks = 0;
    uint64_t violations = 0; std::string incomplete;
} st;

struct PathEnd {};
struct Violation { std::string kind, msg, loc, stack; std::vector<std::pair<std::string, std::string>> inputs; bool uninit; std::vector<std::string> obs; uint64_t steps; };
static std::vector<Violation> g_viols;
static std::set<std::string> g_violKeys;
static double g_firstViol = -1;
static std::map<std::string, uint64_t> g_reach;
static std::vector<std::string> g_reachNames; static std::unordered_map<std::string, uint32_t> g_reachIdx;
struct Sample { std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> obs; };
static std::vector<Sample> g_samples; static uint64_t g_sampleSeen = 0;
static std::vector<uint32_t> g_isUninitVar;

static double now() { static auto t0 = std::chrono::steady_clock::now(); return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
static std::string hex(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static std::string jesc(const std::string& s) {
    std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r;
}
static void fatal(const std::string& m) { fprintf(stderr, "vfse: fatal: %s\n", m.c_str()); fflush(stderr); _exit(3); }

// ------------------------------------------------------------------ helpers on values
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline E toE(const V& v, unsigned w) { return v.e ? v.e : eConst(w, v.c); }
static inline V fromE(E e) { V v; if (isC(e)) v.c = (uint64_t)e->c; else v.e = e; return v; }
static Thread& T(State& s) { return s.th[s.cur]; }
static Frame& rframe(State& s) { return *T(s).st.back(); }
static Frame& wframe(State& s) {
    auto& p = T(s).st.back();
    if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
    return *p;
}
static const KInst& curInst(State& s) { Frame& f = rframe(s); return f.f->bb[f.bb].in[f.pc]; }

static std::string locOf(const Instruction* I) {
    if (!I) return "?";
    if (auto& d = I->getDebugLoc()) {
        std::string f = d->getFilename().str();
        size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
        return f + ":" + std::to_string(d.getLine());
    }
    return "?";
}
static std::string stackOf(State& s) {
    std::string r; int n = 0;
    if (s.cur >= (int)s.th.size()) return r;
    for (auto it = T(s).st.rbegin(); it != T(s).st.rend() && n < 14; ++it, ++n) {
        Frame& f = **it;
        if (f.f->bb.empty()) continue;
        std::string nm = f.f->pretty; if (nm.size() > 110) nm = nm.substr(0, 107) + "...";
        r += nm + " @ " + locOf(f.f->bb[f.bb].in[std::min<size_t>(f.pc, f.f->bb[f.bb].in.size() - 1)].I) + "\n";
    }
    return r;
}
static std::string valStr(u128 v) { return std::to_string((unsigned long long)v); }
static std::vector<std::pair<std::string, std::string>> inputsOf(State& s, const Model& m) {
    std::vector<std::pair<std::string, std::string>> r;
    for (auto& i : s.inputs) r.push_back({i.name, valStr(i.v.e ? eEval(i.v.e, m) : i.v.c)});
    return r;
}
static std::vector<std::string> obsOf(State& s, const Model& m) {
    std::vector<std::string> r;
    for (auto& o : s.obs) {
        bool un = false;
        if (o.e) for (auto v : eVars(o.e)) if (v < g_isUninitVar.size() && g_isUninitVar[v]) un = true;
        r.push_back(un ? std::string("?") : valStr(o.e ? eEval(o.e, m) : o.c));
    }
    return r;
}
static bool usesUninit(E e) { if (!e) return false; for (auto v : eVars(e)) if (v < g_isUninitVar.size() && g_isUninitVar[v]) return true; return false; }
static void report(State& s, const std::string& kind, const std::string& msg, ModelP m, E cond = nullptr) {
    std::string loc;
    // location: innermost frame with debug info in the code under test if any, else innermost
    for (auto it = T(s).st.rbegin(); it != T(s).st.rend(); ++it) {
        Frame& f = **it; if (f.f->bb.empty()) continue;
        std::string l = locOf(f.f->bb[f.bb].in[std::min<size_t>(f.pc, f.f->bb[f.bb].in.size() - 1)].I);
        if (loc.empty()) loc = l;
        if (f.f->inItlib) { loc = l; break; }
    }
    ++st.violations;
    std::string key = kind + "|" + msg + "|" + loc;
    if (g_firstViol < 0 && kind != "arithmetic") g_firstViol = now(); // a shift may be one the compiler moved, and go on

    if (!g_violKeys.insert(key).second) return;
    Violation v; v.kind = kind; v.msg = msg; v.loc = loc; v.stack = stackOf(s); v.inputs = inputsOf(s, *m); v.obs = obsOf(s, *m); v.uninit = usesUninit(cond); v.steps = s.steps;
    g_viols.push_back(v);
    if (opt.verbose) { fprintf(stderr, "VIOL %s: %s at %s\n%s", kind.c_str(), msg.c_str(), loc.c_str(), v.stack.c_str()); for (auto& i : v.inputs) fprintf(stderr, "  %s=%s\n", i.first.c_str(), i.second.c_str()); }
}
[[noreturn]] static void violEnd(State& s, const std::string& kind, const std::string& msg) { report(s, kind, msg, s.model); throw PathEnd(); }
[[noreturn]] static void unsupported(State& s, const std::string& what) {
    std::string m = "unsupported: " + what;
    if (st.incomplete.empty()) { st.incomplete = m + " in\n" + stackOf(s); }
    if (opt.verbose) fprintf(stderr, "%s\n%s", m.c_str(), stackOf(s).c_str());
    throw PathEnd();
}

// ------------------------------------------------------------------ memory
static const ObjP* slotPtr(const State& s, uint64_t addr) {
    uint64_t slot = addr >> 20; uint64_t c = slot >> 6;
    if (c >= s.mem.size() || !s.mem[c]) return nullptr;
    const ObjP& o = s.mem[c]->o[slot & 63];
    return o ? &o : nullptr;
}
static Chunk& wchunk(State& s, uint64_t slot) {
    uint64_t c = slot >> 6;
    if (c >= s.mem.size()) s.mem.resize(c + 1);
    if (!s.mem[c]) s.mem[c] = std::make_shared<Chunk>();
    else if (s.mem[c].use_count() > 1) s.mem[c] = std::make_shared<Chunk>(*s.mem[c]);
    return *s.mem[c];
}
static Obj& wobj(State& s, uint64_t addr) {
    uint64_t slot = addr >> 20;
    Chunk& c = wchunk(s, slot);
    ObjP& p = c.o[slot & 63];
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return *p;
}
static uint64_t allocObj(State& s, uint64_t size, uint64_t align, ObjKind k, AllocKind ak, const Value* site = nullptr) {
    uint32_t slot = s.nslots++;
    Chunk& c = wchunk(s, slot);
    auto o = std::make_shared<Obj>();
    if (align == 0) align = 1;
    uint64_t a = std::max<uint64_t>(align, k == KHeap ? 16 : 1);
    o->base = ((uint64_t)slot << 20) + 0x10000 + (a < 0x8000 ? a : 0);
    o->size = size; o->slot = slot; o->kind = k; o->ak = ak; o->align = align; o->site = site;
    o->d.assign(size, 0); o->fl.assign(size, 0);
    c.o[slot & 63] = o; ++c.live;
    if (k == KHeap) ++s.heapLive;
    return o->base;
}
static void freeSlot(State& s, uint32_t slot) {
    Chunk& c = wchunk(s, slot);
    if (c.o[slot & 63]) { c.o[slot & 63] = nullptr; if (--c.live == 0 && (slot >> 6) + 1 < (s.nslots >> 6)) s.mem[slot >> 6] = nullptr; }
}

static void raceAccess(State& s, uint64_t addr, uint64_t size, bool write, bool atomic);

static const Obj& checkAccess(State& s, uint64_t addr, uint64_t size, bool write, uint64_t align, const char* what) {
    const ObjP* op = slotPtr(s, addr);
    if (!op) {
        if (addr < 0x100000) {
            if (addr < 0x1000) violEnd(s, "memory", std::string("null pointer ") + what);
            violEnd(s, "memory", std::string(what) + " of function memory");
        }
        violEnd(s, "memory", std::string("invalid or dead stack address in ") + what);
    }
    const Obj& o = **op;
    if (o.freed) violEnd(s, "memory", std::string("use after free: ") + what);
    if (addr < o.base || addr + size > o.base + o.size || addr + size < addr)
        violEnd(s, "memory", std::string("out of bounds ") + what + " (" + (o.kind == KHeap ? "heap" : o.kind == KStack ? "stack" : "global") + " object)");
    if (write && o.ro) violEnd(s, "memory", std::string(what) + " to constant memory");
    if (align > 1 && (addr & (align - 1))) violEnd(s, "alignment", std::string("misaligned ") + what + " (needs " + std::to_string(align) + ")");
    return o;
}
static E uninitByte(State& s, const Obj& o, uint64_t off) {
    ++st.uninit;
    E e = eVar("uninit_" + std::to_string(o.slot) + "_" + std::to_string(off), 8);
    uint32_t i = (uint32_t)e->c; if (g_isUninitVar.size() <= i) g_isUninitVar.resize(i + 64, 0);
    g_isUninitVar[i] = 1;
    return e;
}
static E byteAt(State& s, uint64_t addr) { // assumes access checked
    const Obj& o = **slotPtr(s, addr); uint64_t off = addr - o.base;
    if (o.fl[off] == 1) return eConst(8, o.d[off]);
    if (o.fl[off] == 2) return o.s[off];
    E e = uninitByte(s, o, off);
    Obj& w = wobj(s, addr);
    if (w.s.empty()) w.s.resize(w.size, nullptr);
    w.s[off] = e; w.fl[off] = 2;
    return e;
}
static V loadConc(State& s, uint64_t addr, unsigned bytes, unsigned w, uint64_t align, const char* what = "load") {
    const Obj& o = checkAccess(s, addr, bytes, false, align, what);
    uint64_t off = addr - o.base;
    bool conc = true;
    for (unsigned i = 0; i < bytes; ++i) if (o.fl[off + i] != 1) { conc = false; break; }
    if (conc && bytes <= 8) { uint64_t v = 0; memcpy(&v, &o.d[off], bytes); return cv(v & m64(w)); }
    E e = byteAt(s, addr);
    for (unsigned i = 1; i < bytes; ++i) e = eConcat(byteAt(s, addr + i), e);
    if (w != bytes * 8) e = eExtract(e, 0, w);
    else if (e->op == OExtract && e->c == 0) e = eExtract(e->k[0], 0, w);
    return fromE(e);
}
static void storeConc(State& s, uint64_t addr, const V& v, unsigned bytes, unsigned w, uint64_t align, const char* what = "store") {
    checkAccess(s, addr, bytes, true, align, what);
    Obj& o = wobj(s, addr);
    uint64_t off = addr - o.base;
    if (!v.e && bytes <= 8) {
        uint64_t c = v.c & m64(w);
        memcpy(&o.d[off], &c, bytes); memset(&o.fl[off], 1, bytes);
        return;
    }
    E e = toE(v, w); if (w != bytes * 8) e = eZExt(e, bytes * 8);
    if (o.s.empty()) o.s.resize(o.size, nullptr);
    for (unsigned i = 0; i < bytes; ++i) {
        E b = eExtractRaw(e, i * 8, 8);
        if (isC(b)) { o.d[off + i] = (uint8_t)b->c; o.fl[off + i] = 1; }
        else { o.s[off + i] = b; o.fl[off + i] = 2; }
    }
}

// ------------------------------------------------------------------ constraints / forking
static void pushWork(std::unique_ptr<State> n) { n->id = ++st.states; ++st.forks; g_work.push_back(std::move(n)); }
static bool modelTrue(State& s, E c) { return eEval(c, *s.model) != 0; }
static SatRes query(State& s, E c, ModelP& out) {
    if (isC(c)) { out = s.model; return c->c ? SAT : UNSAT; }
    if (modelTrue(s, c)) { ++g_sst.modelHits; out = s.model; return SAT; }
    SatRes r = solve(s.pc, c, s.model, out);
    if (r == UNKNOWN && st.incomplete.empty()) st.incomplete = "solver returned unknown";
    return r;
}
static void addC(State& s, E c, ModelP m) { // c known satisfiable with model m
    if (!isC(c)) s.pc.push_back(c);
    s.model = m;
}
static bool assumeC(State& s, E c) {
    ModelP m; if (query(s, c, m) != SAT) return false;
    addC(s, c, m); return true;
}
// concretize a value: current state continues with the value its model gives; other values are explored by
// copies that re-execute the current instruction. Must be called before any side effect of the instruction.
static uint64_t concretize(State& s, const V& v, unsigned w) {
    if (!v.e) return v.c;
    uint64_t val = (uint64_t)eEval(v.e, *s.model);
    E eq = eBin(OEq, v.e, eConst(w, val));
    E ne = eNot(eq);
    ModelP m;
    if (!isC(ne)) {
        if (query(s, ne, m) == SAT) {
            auto n = std::make_unique<State>(s);
            addC(*n, ne, m);
            pushWork(std::move(n));
        }
        s.pc.push_back(eq);
    }
    return val;
}

// all feasible addresses of a symbolic pointer; reports invalid ones
static std::vector<uint64_t> resolve(State& s, const V& a, unsigned size, bool write, uint64_t align, const char* what) {
    std::vector<uint64_t> r;
    if (!a.e) { r.push_back(a.c); return r; }
    E block = eConst(1, 1); ModelP m = s.model;
    while (true) {
        uint64_t val = (uint64_t)eEval(a.e, *m);
        ModelP keep = s.model; s.model = m; // a violation below must use this model
        checkAccess(s, val, size, write, align, what);
        s.model = keep;
        r.push_back(val);
        if (r.size() > 512) unsupported(s, "pointer with more than 512 targets");
        block = eBin(OAnd, block, eNot(eBin(OEq, a.e, eConst(64, val))));
        ModelP out;
        SatRes q = solve(s.pc, block, s.model, out);
        if (q == UNKNOWN && st.incomplete.empty()) st.incomplete = "solver returned unknown";
        if (q != SAT) break;
        m = out;
    }
    std::sort(r.begin(), r.end());
    ++st.ites;
    return r;
}
static V loadMem(State& s, const V& a, unsigned bytes, unsigned w, uint64_t align) {
    if (!a.e) { if (s.multi) raceAccess(s, a.c, bytes, false, false); return loadConc(s, a.c, bytes, w, align); }
    auto c = resolve(s, a, bytes, false, align, "load");
    E e = nullptr;
    for (auto it = c.rbegin(); it != c.rend(); ++it) {
        if (s.multi) raceAccess(s, *it, bytes, false, false);
        E x = toE(loadConc(s, *it, bytes, w, align), w);
        e = e ? eIte(eBin(OEq, a.e, eConst(64, *it)), x, e) : x;
    }
    return fromE(e);
}
static void storeMem(State& s, const V& a, const V& v, unsigned bytes, unsigned w, uint64_t align) {
    if (!a.e) { if (s.multi) raceAccess(s, a.c, bytes, true, false); storeConc(s, a.c, v, bytes, w, align); return; }
    auto c = resolve(s, a, bytes, true, align, "store");
    for (auto ad : c) {
        if (s.multi) raceAccess(s, ad, bytes, true, false);
        E x = toE(loadConc(s, ad, bytes, w, align), w);
        E n = c.size() == 1 ? toE(v, w) : eIte(eBin(OEq, a.e, eConst(64, ad)), toE(v, w), x);
        storeConc(s, ad, fromE(n), bytes, w, align);
    }
}
static void copyBytes(State& s, uint64_t dst, uint64_t src, uint64_t n) {
    if (!n) return;
    const Obj& so = checkAccess(s, src, n, false, 1, "memcpy source");
    uint64_t so_off = src - so.base;
    ObjP keep = *slotPtr(s, src);
    std::vector<uint8_t> d(keep->d.begin() + so_off, keep->d.begin() + so_off + n), fl(keep->fl.begin() + so_off, keep->fl.begin() + so_off + n);
    std::vector<E> sy; if (!keep->s.empty()) sy.assign(keep->s.begin() + so_off, keep->s.begin() + so_off + n);
    keep = nullptr;
    checkAccess(s, dst, n, true, 1, "memcpy destination");
    if (s.multi) { raceAccess(s, src, n, false, false); raceAccess(s, dst, n, true, false); }
    Obj& o = wobj(s, dst); uint64_t off = dst - o.base;
    memcpy(&o.d[off], d.data(), n); memcpy(&o.fl[off], fl.data(), n);
    if (!sy.empty()) { if (o.s.empty()) o.s.resize(o.size, nullptr); std::copy(sy.begin(), sy.end(), o.s.begin() + off); }
}
static void setBytes(State& s, uint64_t dst, const V& v, uint64_t n) {
    if (!n) return;
    checkAccess(s, dst, n, true, 1, "memset");
    if (s.multi) raceAccess(s, dst, n, true, false);
    Obj& o = wobj(s, dst); uint64_t off = dst - o.base;
    if (!v.e) { memset(&o.d[off], (int)v.c, n); memset(&o.fl[off], 1, n); }
    else { if (o.s.empty()) o.s.resize(o.size, nullptr); for (uint64_t i = 0; i < n; ++i) { o.s[off + i] = v.e; o.fl[off + i] = 2; } }
}
static std::string readStr(State& s, uint64_t a) {
    std::string r;
    while (r.size() < 4096) { V v = loadConc(s, a + r.size(), 1, 8, 1); if (v.e) break; if (!v.c) break; r += (char)v.c; }
    return r;
}

// ------------------------------------------------------------------ module preparation
static KFunction* kfun(const Function* F) {
    auto it = g_fn.find(F); if (it != g_fn.end()) return it->second;
    auto* k = new KFunction; k->F = F; k->name = F->getName().str(); k->pretty = demangle(k->name);
    k->addr = g_nextAddr; g_nextAddr += 16;
    if (g_nextAddr >= 0x100000) fatal("too many functions");
    if (auto* sp = F->getSubprogram()) { if (sp->getFilename().contains("include/itlib/")) k->inItlib = true; }
    g_fn[F] = k; g_fnByAddr[k->addr] = k;
    return k;
}
static int constSlot(const Constant* C);
static V evalConst(const Constant* C, bool& undef);
static V evalConstV(const Constant* C) { bool u = false; return evalConst(C, u); }
static uint64_t gaddr(const GlobalValue* G) {
    if (auto* F = dyn_cast<Function>(G)) return kfun(F)->addr;
    if (auto* A = dyn_cast<GlobalAlias>(G)) return evalConstV(A->getAliasee()).c;
    auto* GV = cast<GlobalVariable>(G);
    auto it = g_gaddr.find(GV); if (it != g_gaddr.end()) return it->second;
    fatal("global without address: " + GV->getName().str()); return 0;
}
static V evalConst(const Constant* C, bool& undef) {
    if (auto* CI = dyn_cast<ConstantInt>(C)) { if (CI->getBitWidth() > 64) { V v; v.e = eConst(CI->getBitWidth(), (u128)CI->getValue().getLoBits(64).getZExtValue() | ((u128)CI->getValue().lshr(64).getLoBits(64).getZExtValue() << 64)); return v; } return cv(CI->getZExtValue()); }
    if (isa<ConstantPointerNull>(C)) return cv(0);
    if (isa<UndefValue>(C)) {
        if (C->getType()->isStructTy() || C->getType()->isArrayTy()) {
            auto* A = new Agg; unsigned n = C->getType()->isStructTy() ? C->getType()->getStructNumElements() : C->getType()->getArrayNumElements();
            for (unsigned i = 0; i < n; ++i) { bool u; A->f.push_back(evalConst(C->getAggregateElement(i), u)); }
            return cv((uint64_t)A);
        }
        undef = true; return cv(0);
    }
    if (auto* G = dyn_cast<GlobalValue>(C)) return cv(gaddr(G));
    if (auto* F = dyn_cast<ConstantFP>(C)) return cv(F->getValueAPF().bitcastToAPInt().getZExtValue());
    if (isa<ConstantAggregateZero>(C) || isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantDataArray>(C)) {
        if (C->getType()->isVectorTy()) fatal("vector constant");
        auto* A = new Agg; unsigned n = C->getType()->isStructTy() ? C->getType()->getStructNumElements() : C->getType()->getArrayNumElements();
        for (unsigned i = 0; i < n; ++i) { bool u; A->f.push_back(evalConst(C->getAggregateElement(i), u)); }
        return cv((uint64_t)A);
    }
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* G = cast<GEPOperator>(CE); APInt off(64, 0);
            if (!G->accumulateConstantOffset(*DL, off)) fatal("non constant gep expr");
            return cv(evalConstV(cast<Constant>(G->getPointerOperand())).c + off.getSExtValue());
        }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return evalConstV(CE->getOperand(0));
        case Instruction::PtrToInt: return cv(evalConstV(CE->getOperand(0)).c & m64(CE->getType()->getIntegerBitWidth()));
        case Instruction::Trunc: return cv(evalConstV(CE->getOperand(0)).c & m64(CE->getType()->getIntegerBitWidth()));
        case Instruction::Sub: return cv(evalConstV(CE->getOperand(0)).c - evalConstV(CE->getOperand(1)).c);
        case Instruction::Add: return cv(evalConstV(CE->getOperand(0)).c + evalConstV(CE->getOperand(1)).c);
        case Instruction::ICmp: {
            uint64_t a = evalConstV(CE->getOperand(0)).c, b = evalConstV(CE->getOperand(1)).c;
            switch (CE->getPredicate()) { case CmpInst::ICMP_EQ: return cv(a == b); case CmpInst::ICMP_NE: return cv(a != b); case CmpInst::ICMP_ULT: return cv(a < b); case CmpInst::ICMP_UGT: return cv(a > b); default: fatal("const icmp"); }
        }
        default: { std::string str; raw_string_ostream os(str); CE->print(os); fatal("constant expr: " + os.str()); }
        }
    }
    if (isa<BlockAddress>(C)) fatal("blockaddress");
    if (isa<ConstantTokenNone>(C)) return cv(0);
    std::string str; raw_string_ostream os(str); C->print(os); fatal("constant: " + os.str()); return V();
}
static int constSlot(const Constant* C) {
    auto it = g_constIdx.find(C); if (it != g_constIdx.end()) return it->second;
    bool u = false; V v = evalConst(C, u);
    g_consts.push_back({v, u}); g_constLL.push_back(C);
    int i = -(int)g_consts.size();
    g_constIdx[C] = i; return i;
}
static void initBytes(State& s, uint64_t addr, const Constant* C) {
    Type* t = C->getType(); uint64_t sz = DL->getTypeStoreSize(t);
    if (isa<ConstantAggregateZero>(C)) { Obj& o = wobj(s, addr); memset(&o.fl[addr - o.base], 1, DL->getTypeAllocSize(t)); return; }
    if (isa<UndefValue>(C)) return;
    if (auto* D = dyn_cast<ConstantDataSequential>(C)) {
        Obj& o = wobj(s, addr); StringRef r = D->getRawDataValues();
        memcpy(&o.d[addr - o.base], r.data(), r.size()); memset(&o.fl[addr - o.base], 1, r.size()); return;
    }
    if (auto* A = dyn_cast<ConstantArray>(C)) { uint64_t es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); ++i) initBytes(s, addr + i * es, A->getOperand(i)); return; }
    if (auto* S = dyn_cast<ConstantStruct>(C)) { auto* L = DL->getStructLayout(S->getType()); { Obj& o = wobj(s, addr); memset(&o.fl[addr - o.base], 1, L->getSizeInBytes()); }
        for (unsigned i = 0; i < S->getNumOperands(); ++i) initBytes(s, addr + L->getElementOffset(i), S->getOperand(i)); return; }
    V v = evalConstV(C);
    storeConc(s, addr, v, sz, t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : (unsigned)sz * 8, 1);
}
static uint16_t bitsOf(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
static void decode(KFunction* k) {
    if (k->built) return; k->built = true;
    const Function& F = *k->F;
    std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bidx;
    unsigned n = 0;
    for (auto& a : F.args()) slot[&a] = n++;
    k->nargs = n;
    int bi = 0;
    for (auto& B : F) { bidx[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
    k->nregs = n;
    auto S = [&](const Value* v) -> int {
        if (auto* C = dyn_cast<Constant>(v)) return constSlot(C);
        auto it = slot.find(v); if (it != slot.end()) return it->second;
        return constSlot(Constant::getNullValue(Type::getInt64Ty(g_lc))); // metadata, inline asm, ...
    };
    k->bb.resize(bi); bi = 0;
    for (auto& B : F) {
        KBlock& kb = k->bb[bi++];
        std::vector<const BasicBlock*> preds;
        if (auto* p = dyn_cast<PHINode>(&B.front())) for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) { kb.preds.push_back(bidx[p->getIncomingBlock(i)]); preds.push_back(p->getIncomingBlock(i)); }
        for (auto& I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            kb.in.emplace_back(); KInst& ki = kb.in.back();
            ki.I = &I; ki.op = I.getOpcode();
            Type* t = I.getType(); ki.w = bitsOf(t); ki.agg = t->isStructTy() || t->isArrayTy();
            if (t->isVectorTy()) { std::string str; raw_string_ostream os(str); I.print(os); fatal("vector instruction: " + os.str() + " in " + k->pretty); }
            if (!t->isVoidTy()) ki.dest = slot[&I];
            if (auto* P = dyn_cast<PHINode>(&I)) {
                ++kb.nphi;
                for (auto* pb : preds) ki.phiSlots.push_back(S(P->getIncomingValueForBlock(pb)));
                continue;
            }
            if (I.getNumOperands()) ki.w0 = bitsOf(I.getOperand(0)->getType());
            switch (I.getOpcode()) {
            case Instruction::GetElementPtr: {
                auto& G = cast<GetElementPtrInst>(I); ki.ops.push_back(S(G.getPointerOperand()));
                MapVector<Value*, APInt> vo; APInt co(64, 0);
                if (!cast<GEPOperator>(G).collectOffset(*DL, 64, vo, co)) fatal("gep");
                ki.off = co.getSExtValue();
                for (auto& p : vo) ki.gep.push_back({S(p.first), (uint64_t)p.second.getSExtValue(), bitsOf(p.first->getType())});
                break;
            }
            case Instruction::Load: { auto& L = cast<LoadInst>(I); ki.ops.push_back(S(L.getPointerOperand())); ki.align = L.getAlign().value(); ki.size = DL->getTypeStoreSize(t); break; }
            case Instruction::Store: { auto& L = cast<StoreInst>(I); ki.ops = {S(L.getValueOperand()), S(L.getPointerOperand())}; ki.align = L.getAlign().value(); ki.size = DL->getTypeStoreSize(L.getValueOperand()->getType()); ki.w = bitsOf(L.getValueOperand()->getType()); ki.agg = L.getValueOperand()->getType()->isAggregateType(); break; }
            case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); ki.ops.push_back(S(A.getArraySize())); ki.align = A.getAlign().value(); ki.size = DL->getTypeAllocSize(A.getAllocatedType()); break; }
            case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: {
                for (auto& o : I.operands()) ki.ops.push_back(S(o));
                Type* vt = I.getOperand(1)->getType(); ki.size = DL->getTypeStoreSize(vt); ki.w0 = bitsOf(vt); ki.align = ki.size; break; }
            case Instruction::Br: { auto& Br = cast<BranchInst>(I); if (Br.isConditional()) { ki.ops.push_back(S(Br.getCondition())); ki.succ[0] = bidx[Br.getSuccessor(0)]; ki.succ[1] = bidx[Br.getSuccessor(1)]; } else ki.succ[0] = bidx[Br.getSuccessor(0)]; break; }
            case Instruction::Switch: { auto& Sw = cast<SwitchInst>(I); ki.ops.push_back(S(Sw.getCondition())); ki.w0 = bitsOf(Sw.getCondition()->getType()); ki.succ[0] = bidx[Sw.getDefaultDest()]; for (auto c : Sw.cases()) ki.cases.push_back({c.getCaseValue()->getZExtValue(), bidx[c.getCaseSuccessor()]}); break; }
            case Instruction::Call: case Instruction::Invoke: {
                auto& C = cast<CallBase>(I);
                for (unsigned i = 0; i < C.arg_size(); ++i) {
                    Value* a = C.getArgOperand(i); ki.ops.push_back(S(a)); ki.argw.push_back(bitsOf(a->getType()));
                    if (C.isByValArgument(i)) { ki.byval.push_back(i); ki.byvalSize.push_back(DL->getTypeAllocSize(C.getParamByValType(i))); }
                }
                if (auto* Iv = dyn_cast<InvokeInst>(&I)) { ki.succ[0] = bidx[Iv->getNormalDest()]; ki.succ[1] = bidx[Iv->getUnwindDest()]; }
                Value* cvl = C.getCalledOperand()->stripPointerCasts();
                if (auto* GA = dyn_cast<GlobalAlias>(cvl)) cvl = GA->getAliaseeObject();
                if (isa<InlineAsm>(cvl)) { ki.intrinsic = ~0u; break; }
                if (auto* CF = dyn_cast<Function>(cvl)) {
                    ki.intrinsic = CF->getIntrinsicID();
                    if (!ki.intrinsic) {
                        auto b = g_builtins.find(CF->getName().str());
                        if (b != g_builtins.end() && (CF->isDeclaration() || CF->getName().starts_with("vf_"))) ki.builtin = b->second;
                        else if (CF->isDeclaration()) ki.ext = CF;
                        else ki.callee = kfun(CF);
                    }
                } else ki.ops.push_back(S(C.getCalledOperand())); // last op: function pointer
                break;
            }
            case Instruction::ExtractValue: { auto& X = cast<ExtractValueInst>(I); ki.ops.push_back(S(X.getAggregateOperand())); ki.idx.assign(X.idx_begin(), X.idx_end()); break; }
            case Instruction::InsertValue: { auto& X = cast<InsertValueInst>(I); ki.ops = {S(X.getAggregateOperand()), S(X.getInsertedValueOperand())}; ki.idx.assign(X.idx_begin(), X.idx_end()); break; }
            case Instruction::LandingPad: break;
            default: for (auto& o : I.operands()) ki.ops.push_back(S(o));
            }
        }
    }
}

// ------------------------------------------------------------------ registers
static inline V fetch(State& s, const Frame& f, int slot, unsigned w) {
    if (slot >= 0) return f.regs[slot];
    auto& c = g_consts[-slot - 1];
    if (!c.second) return c.first;
    // undef: arbitrary value
    E e = eVar("undef_" + std::to_string(s.nvar++), w ? w : 64);
    uint32_t i = (uint32_t)e->c; if (g_isUninitVar.size() <= i) g_isUninitVar.resize(i + 64, 0);
    g_isUninitVar[i] = 1;
    V v; v.e = e; return v;
}
static inline void setReg(State& s, const KInst& ki, const V& v) { if (ki.dest >= 0) wframe(s).regs[ki.dest] = v; }
static void enterBlock(State& s, int to) {
    Frame& f = wframe(s);
    KBlock& kb = f.f->bb[to];
    ++kb.covered;
    if (kb.nphi) {
        int pi = -1; for (size_t i = 0; i < kb.preds.size(); ++i) if (kb.preds[i] == f.bb) { pi = i; break; }
        if (pi < 0) fatal("phi pred");
        V tmp[64]; std::vector<V> big; V* t = tmp; if (kb.nphi > 64) { big.resize(kb.nphi); t = big.data(); }
        for (unsigned i = 0; i < kb.nphi; ++i) t[i] = fetch(s, f, kb.in[i].phiSlots[pi], kb.in[i].w);
        for (unsigned i = 0; i < kb.nphi; ++i) f.regs[kb.in[i].dest] = t[i];
    }
    f.prev = f.bb; f.bb = to; f.pc = kb.nphi;
}
static void advance(State& s, const KInst& ki) { // after a call-like instruction completed normally
    if (ki.op == Instruction::Invoke) enterBlock(s, ki.succ[0]);
    else wframe(s).pc++;
}
static void pushFrame(State& s, KFunction* k, const std::vector<V>& args, OnRet onret, uint64_t data) {
    decode(k); ++k->calls;
    auto f = std::make_shared<Frame>();
    f->f = k; f->regs.resize(k->nregs); f->onret = onret; f->retData = data; f->uid = ++s.nuid;
    for (unsigned i = 0; i < k->nargs && i < args.size(); ++i) f->regs[i] = args[i];
    ++k->bb[0].covered;
    T(s).st.push_back(f);
    if (T(s).st.size() > 400) violEnd(s, "nontermination", "call depth above 400");
}
static void popFrame(State& s) {
    auto f = T(s).st.back();
    for (auto a : f->allocas) freeSlot(s, a);
    T(s).st.pop_back();
}

// ------------------------------------------------------------------ exceptions
static std::string tiName(uint64_t a) { auto it = g_gname.find(a); return it == g_gname.end() ? "" : it->second; }
static const char* stdParent(const std::string& n) {
    static const std::map<std::string, const char*> m = {
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTISt13bad_exception", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}};
    auto it = m.find(n); return it == m.end() ? nullptr : it->second;
}
static bool tiMatch(uint64_t thrown, uint64_t want) {
    if (thrown == want) return true;
    std::string tn = tiName(thrown), wn = tiName(want);
    if (!tn.empty() && tn == wn) return true;
    if (const char* p = stdParent(tn)) {
        std::string pn = p;
        while (true) { if (pn == wn) return true; const char* q = stdParent(pn); if (!q) break; pn = q; }
    }
    auto it = g_gvByAddr.find(thrown);
    if (it == g_gvByAddr.end() || !it->second->hasInitializer()) return false;
    auto* C = dyn_cast<ConstantStruct>(it->second->getInitializer()); if (!C) return false;
    std::string vt; { auto* v = C->getOperand(0)->stripPointerCasts(); if (auto* ce = dyn_cast<ConstantExpr>(C->getOperand(0))) v = ce->getOperand(0)->stripPointerCasts(); vt = v->getName().str(); }
    if (vt.find("si_class") != std::string::npos) return tiMatch(evalConstV(C->getOperand(2)).c, want);
    if (vt.find("vmi_class") != std::string::npos) for (unsigned i = 4; i + 1 < C->getNumOperands() + 1 && i < C->getNumOperands(); i += 2) if (tiMatch(evalConstV(C->getOperand(i)).c, want)) return true;
    return false;
}
static uint64_t typeId(uint64_t ti) { // selector ids by (canonical) address
    static std::map<std::string, uint64_t> byName; std::string n = tiName(ti);
    if (n.empty()) n = hex(ti);
    auto it = byName.find(n); if (it != byName.end()) return it->second;
    uint64_t id = byName.size() + 1; byName[n] = id; return id;
}
// unwinds from the current instruction of the top frame
static void unwind(State& s, uint64_t exc, bool popFirst) {
    uint64_t ti = s.excs[exc].tinfo;
    if (popFirst) { if (T(s).st.size() == 1 || rframe(s).onret == RetThreadEnd) violEnd(s, "exception", "uncaught exception " + demangle(tiName(ti))); popFrame(s); }
    while (true) {
        if (T(s).st.empty()) fatal("unwind: empty stack");
        const KInst& ki = curInst(s);
        if (ki.op == Instruction::Invoke) {
            auto* lp = cast<InvokeInst>(ki.I)->getLandingPadInst();
            bool take = lp->isCleanup(); uint64_t sel = 0;
            for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                if (lp->isCatch(i)) {
                    uint64_t c = evalConstV(lp->getClause(i)).c;
                    if (c == 0) { take = true; sel = typeId(0); break; }
                    if (tiMatch(ti, c)) { take = true; sel = typeId(c); break; }
                } else { violEnd(s, "exception", "exception specification violated"); }
            }
            if (take) {
                enterBlock(s, ki.succ[1]);
                // the landing pad is the first non-phi instruction
                Frame& f = wframe(s);
                const KInst& l = f.f->bb[f.bb].in[f.pc];
                if (l.op != Instruction::LandingPad) fatal("landingpad expected");
                auto* a = new Agg; a->f = {cv(exc), cv(sel)};
                f.regs[l.dest] = cv((uint64_t)a);
                f.pc++;
                return;
            }
        }
        OnRet r = rframe(s).onret;
        if (T(s).st.size() == 1 || r == RetThreadEnd) violEnd(s, "exception", "uncaught exception " + demangle(tiName(ti)));
        popFrame(s);
    }
}
static uint64_t findGlobalAddr(State& s, const std::string& n) {
    if (auto* g = g_mod->getNamedGlobal(n)) return g_gaddr[g];
    auto it = g_extG.find(n); if (it != g_extG.end()) return it->second;
    fatal("no type info global " + n); return 0;
}
static void throwStd(State& s, const char* ti) {
    uint64_t o = allocObj(s, 16, 16, KHeap, AExc); --s.heapLive;
    setBytes(s, o, cv(0), 16);
    Exc e; e.tinfo = findGlobalAddr(s, ti); e.refs = 1; s.excs[o] = e;
    ++T(s).uncaught;
    unwind(s, o, false);
}
static void destroyExc(State& s, uint64_t o, const KInst* ki);

// ------------------------------------------------------------------ concurrency
static void vcJoin(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
static uint32_t vcGet(const VC& a, size_t i) { return i < a.size() ? a[i] : 0; }
static void raceAccess(State& s, uint64_t addr, uint64_t size, bool write, bool atomic) {
    const ObjP* op = slotPtr(s, addr); if (!op) return;
    if ((*op)->ro) return;
    Thread& t = T(s); int me = s.cur;
    // three shadow maps folded into one: rd = last reads (non atomic), wt/wc last non-atomic write; atomics use addr|TAG
    const uint64_t TAG = 1ull << 62;
    for (uint64_t i = 0; i < size; ++i) {
        auto it = s.tx.sh.find(addr + i);
        if (it != s.tx.sh.end()) {
            Shadow& h = it->second;
            if (h.wt >= 0 && h.wt != me && h.wc > vcGet(t.vc, h.wt)) violEnd(s, "race", std::string("data race: ") + (atomic ? "atomic " : "") + (write ? "write" : "read") + " after unordered write");
            if (write) for (size_t k = 0; k < h.rd.size(); ++k) if ((int)k != me && h.rd[k] > vcGet(t.vc, k)) violEnd(s, "race", std::string("data race: ") + (atomic ? "atomic " : "") + "write after unordered read");
        }
        if (!atomic) {
            auto ia = s.tx.sh.find((addr + i) | TAG);
            if (ia != s.tx.sh.end()) {
                Shadow& h = ia->second; // atomic: rd = reads, stored separately for writes in (addr|TAG<<1)
                if (write) for (size_t k = 0; k < h.rd.size(); ++k) if ((int)k != me && h.rd[k] > vcGet(t.vc, k)) violEnd(s, "race", "data race: write after unordered atomic access");
            }
            auto iw = s.tx.sh.find((addr + i) | (TAG << 1));
            if (iw != s.tx.sh.end()) {
                Shadow& h = iw->second;
                for (size_t k = 0; k < h.rd.size(); ++k) if ((int)k != me && h.rd[k] > vcGet(t.vc, k)) violEnd(s, "race", "data race: access after unordered atomic write");
            }
            Shadow& h = s.tx.sh[addr + i];
            if (write) { h.wt = me; h.wc = vcGet(t.vc, me); h.rd.clear(); }
            else { if ((int)h.rd.size() <= me) h.rd.resize(me + 1, 0); h.rd[me] = vcGet(t.vc, me); }
        } else {
            Shadow& h = s.tx.sh[(addr + i) | (write ? TAG << 1 : TAG)];
            if ((int)h.rd.size() <= me) h.rd.resize(me + 1, 0); h.rd[me] = vcGet(t.vc, me);
        }
    }
}
static void endOfPath(State& s);
static void switchTo(State& s, int t) { if (s.cur != t) ++st.switches; s.cur = t; s.th[t].granted = true; if (s.th[t].status == TSoft) s.th[t].status = TRun; }
// the alternatives of a nondeterministic choice are values of a fresh solver variable: each must be satisfiable (asked once per variable and value)
static void askChoice(State& s, E e, uint64_t k) {
    static std::unordered_set<E> asked; E c = eBin(OEq, e, eConst(e->w, k));
    if (!asked.insert(c).second) return;
    ModelP m; if (solve({}, c, nullptr, m) != SAT) fatal("choice without alternatives");
}
static void schedChoose(State& s, bool curRunnable) {
    std::vector<int> en;
    for (size_t i = 0; i < s.th.size(); ++i) if (s.th[i].status == TRun) { if (curRunnable && (int)i != s.cur && s.preempt >= opt.preempt) continue; en.push_back(i); }
    if (en.empty()) {
        for (size_t i = 0; i < s.th.size(); ++i) if (s.th[i].status == TSoft) en.push_back(i);
        if (!en.empty()) {
            if (++s.tx.softSpins > 24) violEnd(s, "nontermination", "all runnable threads spin without progress (deadlock)");
            // round robin is enough here: spinning threads change nothing
            int pick = en[s.tx.softSpins % en.size()]; switchTo(s, pick); return;
        }
        bool all = true; for (auto& t : s.th) if (t.status != TDone) all = false;
        if (all) { endOfPath(s); throw PathEnd(); }
        violEnd(s, "nontermination", "deadlock: no thread can run");
    }
    int old = s.cur;
    for (size_t k = 1; k < en.size(); ++k) {
        auto n = std::make_unique<State>(s);
        E sv = eVar("sched_" + std::to_string(n->nvar++), 8); askChoice(*n, sv, en[k]); addC(*n, eBin(OEq, sv, eConst(8, en[k])), [&] { auto m = std::make_shared<Model>(*n->model); m->set((uint32_t)sv->c, en[k]); return (ModelP)m; }());
        if (curRunnable && en[k] != old) n->preempt++;
        switchTo(*n, en[k]); ++st.choices;
        pushWork(std::move(n));
    }
    if (en.size() > 1) { E sv = eVar("sched_" + std::to_string(s.nvar++), 8); askChoice(s, sv, en[0]); auto m = std::make_shared<Model>(*s.model); m->set((uint32_t)sv->c, en[0]); addC(s, eBin(OEq, sv, eConst(8, en[0])), m); }
    if (curRunnable && en[0] != old) s.preempt++;
    switchTo(s, en[0]);
}
// returns true when the visible operation may be executed now
static bool schedPoint(State& s) {
    if (!s.multi) return true;
    if (T(s).granted) { T(s).granted = false; return true; }
    schedChoose(s, true);
    if (T(s).granted && 0) {}
    return false; // main loop re-dispatches on the chosen thread, which is granted
}
static void logVisible(State& s) { if (s.multi) { ++st.visible; s.inputs.push_back({"@", cv(s.cur), 8}); } }
static void blockCur(State& s, ThSt why, uint64_t addr) { T(s).status = why; T(s).waitAddr = addr; schedChoose(s, false); }
static void wake(State& s, uint64_t addr) {
    for (auto& t : s.th) if ((t.status == TBlocked || t.status == TSoft) && t.waitAddr == addr) t.status = TRun;
    s.tx.softSpins = 0;
}
static void wakeAllSoft(State& s) { for (auto& t : s.th) if (t.status == TSoft) t.status = TRun; s.tx.softSpins = 0; }
static bool isAcq(AtomicOrdering o) { return o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static bool isRel(AtomicOrdering o) { return o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static void hbLoad(State& s, uint64_t addr, AtomicOrdering o) {
    if (!s.multi) return;
    auto it = s.tx.rel.find(addr); if (it == s.tx.rel.end()) return;
    if (isAcq(o)) vcJoin(T(s).vc, it->second); else vcJoin(T(s).acqPend, it->second);
}
static void hbStore(State& s, uint64_t addr, AtomicOrdering o, bool rmw) {
    if (!s.multi) return;
    Thread& t = T(s);
    VC c; if (isRel(o)) c = t.vc; else c = t.relFence;
    if (rmw) vcJoin(s.tx.rel[addr], c); else s.tx.rel[addr] = c;
    if (isRel(o)) { if ((int)t.vc.size() <= s.cur) t.vc.resize(s.cur + 1, 0); t.vc[s.cur]++; }
}
// returns true if the thread should give way (spinning)
static bool spinCheck(State& s, const KInst& ki, uint64_t addr, bool changed) {
    if (!s.multi) return false;
    if (changed) { s.tx.ver[addr]++; T(s).spin.clear(); wake(s, addr); wakeAllSoft(s); return false; }
    auto& e = T(s).spin[{&ki, addr}]; uint64_t v = s.tx.ver[addr];
    if (e.second && e.first == v) { if (++e.second >= 3) { e.second = 1; return true; } }
    else { e.first = v; e.second = 1; }
    return false;
}

// ------------------------------------------------------------------ path end
static void endOfPath(State& s) {
    if (s.leakCheck) {
        for (auto& c : s.mem) if (c) for (auto& o : c->o) if (o && o->kind == KHeap && !o->freed && !o->old && o->ak != AExc) {
            std::string site; if (auto* I = dyn_cast_or_null<Instruction>(o->site)) site = locOf(I);
            report(s, "leak", "memory leak at end of scenario", s.model); throw PathEnd();
        }
    }
    if (opt.nshards > 1 && !s.shardDone && opt.shard != 0) { s.ended = true; return; } // belongs to shard 0
    ++st.paths;
    for (auto r : s.reached) ++g_reach[g_reachNames[r]];
    // reservoir sample
    ++g_sampleSeen;
    static uint64_t rng = opt.seed * 6364136223846793005ull + 1442695040888963407ull;
    auto mk = [&] { // inputs the path condition does not mention get random values
        Model m = *s.model; std::set<uint32_t> used; for (auto c : s.pc) for (auto v : eVars(c)) used.insert(v);
        for (auto& i : s.inputs) if (i.v.e && i.v.e->op == OVar && !used.count((uint32_t)i.v.e->c)) { rng = rng * 6364136223846793005ull + 1442695040888963407ull; m.set((uint32_t)i.v.e->c, (u128)((rng >> 16) & m64(i.w))); }
        Sample sm; sm.inputs = inputsOf(s, m); sm.obs = obsOf(s, m); return sm; };
    if (g_samples.size() < opt.samples) g_samples.push_back(mk());
    else { rng = rng * 6364136223846793005ull + 1442695040888963407ull; uint64_t k = (rng >> 20) % g_sampleSeen; if (k < opt.samples) g_samples[k] = mk(); }
    s.ended = true;
}
static void doReturn(State& s, const V& rv, bool has) {
    OnRet r = rframe(s).onret; uint64_t data = rframe(s).retData;
    popFrame(s);
    switch (r) {
    case RetNormal: {
        const KInst& ki = curInst(s);
        if (has && ki.dest >= 0) wframe(s).regs[ki.dest] = rv;
        advance(s, ki);
        break; }
    case RetFreeExc: {
        const KInst& ki = curInst(s);
        s.excs.erase(data); Obj& o = wobj(s, data); o.freed = true;
        advance(s, ki); break; }
    case RetDiscard: advance(s, curInst(s)); break;
    case RetThreadEnd:
        if (!s.multi) { endOfPath(s); throw PathEnd(); }
        T(s).status = TDone;
        for (auto& t : s.th) if (t.status == TJoining) t.status = TRun;
        wakeAllSoft(s);
        schedChoose(s, false);
        break;
    }
}

#include "exec.inc"
#include "builtins.inc"
#include "main.inc"
