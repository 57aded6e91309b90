// vfse: symbolic executor for LLVM IR (single and bounded multi threaded) on top of Z3.
#pragma once
#include "expr.h"
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>

struct V { uint64_t c = 0; E e = nullptr; };
struct Agg { std::vector<V> f; };
inline V cv(uint64_t c) { V v; v.c = c; return v; }

struct KFunction;
struct State;
struct KInst;
typedef void (*BuiltinFn)(State& s, const KInst& ki, const std::vector<V>& args);

struct GepTerm { int slot; uint64_t scale; uint16_t w; };
struct KInst {
    const llvm::Instruction* I = nullptr;
    unsigned op = 0;
    uint16_t w = 0;      // result width in bits (0 for void/aggregate)
    uint16_t w0 = 0;     // width of operand 0
    bool agg = false;    // result is aggregate
    int dest = -1;
    std::vector<int> ops;
    // per opcode
    uint64_t off = 0; std::vector<GepTerm> gep;   // GEP
    uint64_t align = 1; uint32_t size = 0;        // load/store/alloca
    KFunction* callee = nullptr; BuiltinFn builtin = nullptr; const llvm::Function* ext = nullptr;
    unsigned intrinsic = 0;
    std::vector<int> byval; std::vector<uint64_t> byvalSize; // argument index, size
    std::vector<uint16_t> argw;
    int succ[2] = {-1, -1};
    std::vector<std::pair<uint64_t, int>> cases;  // switch
    std::vector<unsigned> idx;                    // extract/insertvalue
    std::vector<int> phiSlots;                    // by predecessor index
};
struct KBlock {
    std::vector<KInst> in; unsigned nphi = 0;
    std::vector<int> preds; // block indices, order of phi incoming
    int lpIndex = -1;
    uint64_t covered = 0;
};
struct KFunction {
    const llvm::Function* F = nullptr;
    std::string name, pretty;
    bool built = false, inItlib = false;
    unsigned nregs = 0, nargs = 0;
    std::vector<KBlock> bb;
    uint64_t addr = 0;
    uint64_t calls = 0;
};
enum OnRet : uint8_t { RetNormal, RetThreadEnd, RetFreeExc, RetDiscard };
struct Frame {
    KFunction* f = nullptr;
    int bb = 0, pc = 0, prev = -1;
    OnRet onret = RetNormal; uint64_t retData = 0;
    std::vector<V> regs;
    std::vector<uint32_t> allocas;
    uint32_t uid = 0;
};
typedef std::shared_ptr<Frame> FrameP;

enum ObjKind : uint8_t { KGlobal, KStack, KHeap };
enum AllocKind : uint8_t { AMalloc, ANew, ANewArr, AExc, ANone };
struct Obj {
    uint64_t base = 0, size = 0; uint32_t slot = 0;
    ObjKind kind = KStack; AllocKind ak = ANone; bool freed = false, ro = false, old = false;
    uint64_t align = 0; // over-aligned request
    std::vector<uint8_t> d, fl; // data and flags: 0 uninit, 1 concrete, 2 symbolic
    std::vector<E> s;
    const llvm::Value* site = nullptr;
};
typedef std::shared_ptr<Obj> ObjP;
struct Chunk { ObjP o[64]; unsigned live = 0; };
typedef std::shared_ptr<Chunk> ChunkP;

typedef std::vector<uint32_t> VC;
struct Exc { uint64_t tinfo = 0, dtor = 0; int handlers = 0, refs = 0; bool rethrown = false; };
enum ThSt : uint8_t { TRun, TBlocked, TSoft, TDone, TJoining };
struct Thread {
    std::vector<FrameP> st;
    ThSt status = TRun; uint64_t waitAddr = 0; bool granted = false;
    std::vector<uint64_t> caught; int uncaught = 0;
    VC vc, acqPend, relFence;
    std::map<std::pair<const KInst*, uint64_t>, std::pair<uint64_t, int>> spin; // -> version, count
};
struct Shadow { int wt = -1; uint32_t wc = 0; bool atomicOnly = false; VC rd; };
struct InputRec { std::string name; V v; uint16_t w; };

struct ThreadsX { // concurrency book-keeping (only when threads were spawned)
    std::map<uint64_t, Shadow> sh;        // per byte
    std::map<uint64_t, VC> rel;           // release clock of sync locations
    std::map<uint64_t, uint64_t> ver;     // modification counter of atomic locations
    uint64_t anyWrite = 0; int softSpins = 0;
};

struct State {
    uint64_t id = 0;
    std::vector<Thread> th; int cur = 0;
    std::vector<ChunkP> mem; uint32_t nslots = 1;
    std::vector<E> pc; ModelP model;
    std::vector<InputRec> inputs; std::vector<V> obs;
    std::set<uint32_t> reached;
    std::shared_ptr<std::map<uint64_t, uint64_t>> live;
    std::map<uint64_t, Exc> excs;
    std::map<uint64_t, std::pair<int,int>> mutexes; // addr -> owner tid (or -1), count
    ThreadsX tx; bool multi = false; int preempt = 0;
    uint32_t nvar = 0, nuid = 0; uint64_t steps = 0;
    int64_t heapLive = 0; bool leakCheck = true; bool started = false;
    uint64_t allocFailAt = 0, allocN = 0;
    bool ended = false; // path finished
    bool shardDone = false; uint64_t shIdx = 0, shProd = 1; unsigned depth = 0;
};
