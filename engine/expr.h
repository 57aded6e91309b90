// Bit-vector expression DAG (hash-consed, constant folding) and the Z3 back end.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <memory>
#include <unordered_map>
#include <z3.h>

typedef unsigned __int128 u128;

enum Op : uint8_t {
    OConst, OVar, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor,
    OShl, OLShr, OAShr, OEq, OUlt, OUle, OSlt, OSle, OConcat, OExtract, OZExt, OSExt, OIte,
    // IEEE 754 binary32/64 operations on their bit patterns (round to nearest even)
    OFAdd, OFSub, OFMul, OFDiv, OFCmp /* c: LLVM predicate */, OFCvt, OFRound /* c: 0 floor, 1 ceil, 2 towards zero */, OSToF, OUToF, OFToS, OFToU
};

struct Node {
    Op op; uint16_t w; uint32_t id; uint32_t nk;
    const Node* k[3];
    u128 c;             // constant / extract low bit / var index
    bool fp = false;    // contains floating point operations
    mutable uint64_t evEpoch = 0; mutable u128 ev = 0;
    mutable Z3_ast z = nullptr;
    mutable const std::vector<uint32_t>* vars = nullptr; // sorted var ids (lazily)
};
typedef const Node* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

E eConst(unsigned w, u128 v);
E eVar(const std::string& name, unsigned w);
E eBin(Op op, E a, E b);
E eConcat(E hi, E lo);
E eExtractRaw(E a, unsigned lo, unsigned w);
E eExtract(E a, unsigned lo, unsigned w);
E eZExt(E a, unsigned w);
E eSExt(E a, unsigned w);
E eIte(E c, E a, E b);
E eNot(E a); // width 1
E eFp(Op op, unsigned w, E a, E b = nullptr, unsigned c = 0);
inline bool isC(E e) { return e->op == OConst; }
u128 sext128(u128 v, unsigned w);

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;
const std::vector<uint32_t>& eVars(E e);

// assignments of variables; absent = 0
struct Model {
    std::vector<u128> val; // by var index
    u128 get(uint32_t i) const { return i < val.size() ? val[i] : 0; }
    void set(uint32_t i, u128 v) { if (i >= val.size()) val.resize(i + 1, 0); val[i] = v; }
};
typedef std::shared_ptr<const Model> ModelP;

u128 eEval(E e, const Model& m); // memoised per model epoch
void eEvalNewEpoch();

enum SatRes { SAT, UNSAT, UNKNOWN };

struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double secs = 0, maxsecs = 0;
    uint64_t rwConfirmed = 0, rwDecided = 0, rwSkipped = 0; double rwSecs = 0; // rewritings confirmed; of these comparisons decided by rewriting
};
extern SolverStats g_sst;

// is (pc && cond) satisfiable; on SAT fills model (based on 'base' for unconstrained vars)
SatRes solve(const std::vector<E>& pc, E cond, ModelP base, ModelP& out);
extern unsigned g_solverTimeoutMs;
std::string eStr(E e, int depth = 6);
