#include "expr.h"
#include <unordered_set>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <deque>

std::vector<VarInfo> g_vars;
SolverStats g_sst;
unsigned g_solverTimeoutMs = 60000;
static std::unordered_map<std::string, E> g_varByName;

struct Hash {
    size_t operator()(E n) const {
        size_t h = n->op * 1000003u + n->w;
        for (unsigned i = 0; i < n->nk; ++i) h = h * 0x9E3779B97F4A7C15ull + n->k[i]->id;
        h ^= (size_t)(n->c) * 0xC2B2AE3D27D4EB4Full + (size_t)(n->c >> 64);
        return h ^ (h >> 29);
    }
};
struct EqN {
    bool operator()(E a, E b) const {
        if (a->op != b->op || a->w != b->w || a->nk != b->nk || a->c != b->c) return false;
        for (unsigned i = 0; i < a->nk; ++i) if (a->k[i] != b->k[i]) return false;
        return true;
    }
};
static std::unordered_set<E, Hash, EqN> g_tab;
static std::deque<Node> g_arena;
static uint32_t g_nextId = 1;

static E intern(Node& n) {
    auto it = g_tab.find(&n);
    if (it != g_tab.end()) return *it;
    g_arena.push_back(n);
    Node* p = &g_arena.back();
    p->id = g_nextId++;
    g_tab.insert(p);
    return p;
}
static E mk(Op op, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, u128 k = 0) {
    Node n; n.op = op; n.w = w; n.k[0] = a; n.k[1] = b; n.k[2] = c; n.nk = (a ? 1 : 0) + (b ? 1 : 0) + (c ? 1 : 0); n.c = k; n.id = 0; n.fp = op >= OFAdd; for (unsigned i = 0; i < n.nk; ++i) n.fp |= n.k[i]->fp;
    return intern(n);
}
u128 sext128(u128 v, unsigned w) {
    if (w >= 128) return v;
    u128 s = (u128)1 << (w - 1);
    v &= maskw(w);
    return (v ^ s) - s;
}
E eConst(unsigned w, u128 v) { return mk(OConst, w, nullptr, nullptr, nullptr, v & maskw(w)); }
E eVar(const std::string& name, unsigned w) {
    std::string key = name + "/" + std::to_string(w);
    auto it = g_varByName.find(key);
    if (it != g_varByName.end()) return it->second;
    uint32_t idx = g_vars.size();
    g_vars.push_back({name, w});
    E e = mk(OVar, w, nullptr, nullptr, nullptr, idx);
    g_varByName[key] = e;
    return e;
}
// every rewriting of a term with variables is an equation which the solver confirms (see confirm() below); only outermost calls
// count, their results cover the nested ones
static int g_depth = 0;
static void lemma(Op op, unsigned w, E a, E b, E c, u128 k, E r);
static E eBin0(Op op, E a, E b);
static E eConcat0(E hi, E lo);
static E eExtract0(E a, unsigned lo, unsigned w);
static E eIte0(E c, E a, E b);
static bool isCmp(Op o);
E eBin(Op op, E a, E b) {
    if (g_depth || (isC(a) && isC(b))) return eBin0(op, a, b);
    ++g_depth; E r = eBin0(op, a, b); --g_depth;
    lemma(op, isCmp(op) ? 1 : a->w, a, b, nullptr, 0, r); return r;
}
E eConcat(E hi, E lo) {
    if (g_depth || (isC(hi) && isC(lo))) return eConcat0(hi, lo);
    ++g_depth; E r = eConcat0(hi, lo); --g_depth;
    lemma(OConcat, hi->w + lo->w, hi, lo, nullptr, 0, r); return r;
}
E eExtract(E a, unsigned lo, unsigned w) {
    if (g_depth || isC(a) || w == a->w) return eExtract0(a, lo, w);
    ++g_depth; E r = eExtract0(a, lo, w); --g_depth;
    lemma(OExtract, w, a, nullptr, nullptr, lo, r); return r;
}
E eIte(E c, E a, E b) {
    if (g_depth || isC(c)) return eIte0(c, a, b);
    ++g_depth; E r = eIte0(c, a, b); --g_depth;
    lemma(OIte, a->w, c, a, b, 0, r); return r;
}
static u128 fold(Op op, unsigned w, u128 a, u128 b) {
    u128 m = maskw(w);
    typedef __int128 s128;
    switch (op) {
    case OAdd: return (a + b) & m;
    case OSub: return (a - b) & m;
    case OMul: return (a * b) & m;
    case OUDiv: return b == 0 ? m : a / b;
    case OURem: return b == 0 ? a : a % b;
    case OSDiv: { if (b == 0) return ((s128)sext128(a, w) < 0) ? 1 : m; s128 x = sext128(a, w), y = sext128(b, w); if (y == -1) return ((u128)0 - a) & m; return (u128)(x / y) & m; }
    case OSRem: { if (b == 0) return a; s128 x = sext128(a, w), y = sext128(b, w); if (y == -1) return 0; return (u128)(x % y) & m; }
    case OAnd: return a & b;
    case OOr: return a | b;
    case OXor: return a ^ b;
    case OShl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case OLShr: return b >= w ? 0 : a >> (unsigned)b;
    case OAShr: { s128 x = sext128(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case OEq: return a == b;
    case OUlt: return a < b;
    case OUle: return a <= b;
    case OSlt: return (s128)sext128(a, w) < (s128)sext128(b, w);
    case OSle: return (s128)sext128(a, w) <= (s128)sext128(b, w);
    default: abort();
    }
}
static double toD(u128 c, unsigned w) { if (w == 32) { float f; uint32_t u = (uint32_t)c; memcpy(&f, &u, 4); return f; } double d; uint64_t u = (uint64_t)c; memcpy(&d, &u, 8); return d; }
static u128 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t c; memcpy(&c, &d, 8); return c; }
static u128 foldF(Op op, unsigned w, unsigned kw, u128 a, u128 b, unsigned c) {
    switch (op) {
    case OSToF: { int64_t x = (int64_t)sext128(a, kw); return w == 32 ? fromD((float)x, 32) : fromD((double)x, 64); }
    case OUToF: return w == 32 ? fromD((float)(uint64_t)a, 32) : fromD((double)(uint64_t)a, 64);
    default: break;
    }
    double x = toD(a, kw), y = toD(b, kw); bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (op) {
    case OFAdd: return w == 32 ? fromD((float)x + (float)y, 32) : fromD(x + y, 64);
    case OFSub: return w == 32 ? fromD((float)x - (float)y, 32) : fromD(x - y, 64);
    case OFMul: return w == 32 ? fromD((float)x * (float)y, 32) : fromD(x * y, 64);
    case OFDiv: return w == 32 ? fromD((float)x / (float)y, 32) : fromD(x / y, 64);
    case OFCmp: { bool lt = !un && x < y, eq = !un && x == y, gt = !un && x > y; r = ((c & 1) && eq) || ((c & 2) && gt) || ((c & 4) && lt) || ((c & 8) && un); return r; } // LLVM's predicates are bit sets: 1 eq, 2 gt, 4 lt, 8 unordered
    case OFCvt: return fromD(x, w);
    case OFRound: return fromD(c == 0 ? std::floor(x) : c == 1 ? std::ceil(x) : std::trunc(x), w);
    case OFToS: { double t = std::trunc(x), lim = std::ldexp(1.0, w - 1); if (!(t >= -lim && t < lim)) return (u128)1 << (w - 1); return (u128)(__int128)t & maskw(w); } // out of range: as x86's conversions
    case OFToU: { double t = std::trunc(x), lim = std::ldexp(1.0, w); if (!(t >= 0 && t < lim)) return (u128)1 << (w - 1); return (u128)t & maskw(w); }
    default: abort();
    }
}
E eFp(Op op, unsigned w, E a, E b, unsigned c) {
    if (isC(a) && (!b || isC(b))) return eConst(w, foldF(op, w, a->w, a->c, b ? b->c : 0, c));
    return mk(op, w, a, b, nullptr, c);
}
static bool isCmp(Op o) { return o >= OEq && o <= OSle; }
E eNot(E a) {
    if (isC(a)) return eConst(1, a->c ^ 1);
    if (a->op == OXor && isC(a->k[1]) && a->k[1]->c == 1) return a->k[0];
    switch (a->op) { // keep comparisons positive where possible
    case OUlt: return eBin(OUle, a->k[1], a->k[0]);
    case OUle: return eBin(OUlt, a->k[1], a->k[0]);
    case OSlt: return eBin(OSle, a->k[1], a->k[0]);
    case OSle: return eBin(OSlt, a->k[1], a->k[0]);
    default: break;
    }
    return mk(OXor, 1, a, eConst(1, 1));
}
// runs of equal bits of a constant mask, from the lowest; returns their number (0 if more than max)
static unsigned maskRuns(u128 c, unsigned w, unsigned* len, bool* one, unsigned max) {
    unsigned n = 0, i = 0;
    while (i < w) {
        bool v = (c >> i) & 1; unsigned j = i; while (j < w && bool((c >> j) & 1) == v) ++j;
        if (n == max) return 0;
        len[n] = j - i; one[n] = v; ++n; i = j;
    }
    return n;
}
static bool isPieces(E e) { return e->op == OConcat || e->op == OZExt; }
static unsigned cutOf(E e) { return e->op == OConcat ? e->k[1]->w : e->k[0]->w; }
static E eBin0(Op op, E a, E b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
    unsigned rw = isCmp(op) ? 1 : w;
    if (isC(a) && isC(b)) return eConst(rw, fold(op, w, a->c, b->c));
    bool comm = op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    u128 m = maskw(w);
    if (isC(b)) {
        u128 c = b->c;
        switch (op) {
        case OAdd:
            if (c == 0) return a;
            if (a->op == OAdd && isC(a->k[1])) return eBin(OAdd, a->k[0], eConst(w, a->k[1]->c + c));
            if (a->op == OIte && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eBin(op, a->k[1], b), eBin(op, a->k[2], b));
            break;
        case OSub: if (c == 0) return a; return eBin(OAdd, a, eConst(w, (u128)0 - c));
        case OMul: if (c == 0) return b; if (c == 1) return a; break;
        case OUDiv: if (c == 1) return a; if (c && !(c & (c - 1))) { unsigned s = 0; while (!((c >> s) & 1)) ++s; return eBin(OLShr, a, eConst(w, s)); } break;
        case OURem: if (c == 1) return eConst(w, 0); if (c && !(c & (c - 1))) return eBin(OAnd, a, eConst(w, c - 1)); break;
        case OAnd: if (c == 0) return b; if (c == m) return a;
            if (a->op == OZExt && (maskw(a->k[0]->w) & c) == maskw(a->k[0]->w)) return a;
            break;
        case OOr: if (c == 0) return a; if (c == m) return b; break;
        case OXor: if (c == 0) return a; if (w == 1 && c == 1) return eNot(a);
            if (a->op == OXor && isC(a->k[1])) return eBin(OXor, a->k[0], eConst(w, a->k[1]->c ^ c));
            break;
        case OShl: case OLShr: case OAShr: if (c == 0) return a;
            if (c >= w && op != OAShr) return eConst(w, 0);
            if (op == OLShr && a->op == OConcat && c == a->k[1]->w) return eZExt(a->k[0], w);
            break;
        case OEq:
            if (w == 1) return c ? a : eNot(a);
            if (a->op == OZExt) { unsigned iw = a->k[0]->w; if (c >> iw) return eConst(1, 0); return eBin(OEq, a->k[0], eConst(iw, c)); }
            if (a->op == OSExt) { unsigned iw = a->k[0]->w; if ((sext128(c, iw) & m) != c) return eConst(1, 0); return eBin(OEq, a->k[0], eConst(iw, c)); }
            if (a->op == OIte && (isC(a->k[1]) || isC(a->k[2]))) {
                E x = eBin(OEq, a->k[1], b), y = eBin(OEq, a->k[2], b);
                return eIte(a->k[0], x, y);
            }
            if (a->op == OAdd && isC(a->k[1])) return eBin(OEq, a->k[0], eConst(w, c - a->k[1]->c));
            if (a->op == OConcat && isC(a->k[0])) {
                unsigned lw = a->k[1]->w; if ((c >> lw) != a->k[0]->c) return eConst(1, 0);
                return eBin(OEq, a->k[1], eConst(lw, c));
            }
            break;
        case OUlt: if (c == 0) return eConst(1, 0); if (c == 1) return eBin(OEq, a, eConst(w, 0));
            if (a->op == OZExt) { unsigned iw = a->k[0]->w; if (c >> iw) return eConst(1, 1); return eBin(OUlt, a->k[0], eConst(iw, c)); }
            break;
        case OUle: if (c == m) return eConst(1, 1); if (c == 0) return eBin(OEq, a, b);
            if (a->op == OZExt) { unsigned iw = a->k[0]->w; if (c >> iw) return eConst(1, 1); return eBin(OUle, a->k[0], eConst(iw, c)); }
            break;
        case OSlt:
            if (a->op == OZExt) { if ((c >> (w - 1)) & 1) return eConst(1, 0); return eBin(OUlt, a, b); }
            break;
        case OSle:
            if (a->op == OZExt) { if ((c >> (w - 1)) & 1) return eConst(1, 0); return eBin(OUle, a, b); }
            break;
        default: break;
        }
    }
    if (isC(a)) {
        u128 c = a->c;
        switch (op) {
        case OShl: case OLShr: if (c == 0) return a; break;
        case OUlt: if (c == m) return eConst(1, 0); if (c == 0) return eNot(eBin(OEq, b, a));
            if (b->op == OZExt) { unsigned iw = b->k[0]->w; if (c >> iw) return eConst(1, 0); return eBin(OUlt, eConst(iw, c), b->k[0]); }
            break;
        case OUle: if (c == 0) return eConst(1, 1);
            if (b->op == OZExt) { unsigned iw = b->k[0]->w; if (c >> iw) return eConst(1, 0); return eBin(OUle, eConst(iw, c), b->k[0]); }
            break;
        case OSlt:
            if (b->op == OZExt) { if ((c >> (w - 1)) & 1) return eConst(1, 1); return eBin(OUlt, a, b); }
            break;
        case OSle:
            if (b->op == OZExt) { if ((c >> (w - 1)) & 1) return eConst(1, 1); return eBin(OUle, a, b); }
            break;
        default: break;
        }
    }
    if (a == b) {
        switch (op) {
        case OSub: case OXor: return eConst(w, 0);
        case OAnd: case OOr: return a;
        case OEq: case OUle: case OSle: return eConst(1, 1);
        case OUlt: case OSlt: return eConst(1, 0);
        default: break;
        }
    }
    // canonical form of bit manipulation: concatenations of extracted pieces
    if (w > 1 && isC(b)) {
        if (op == OLShr && b->c < w) return eZExt(eExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
        if (op == OAShr && b->c < w) return a->op == OZExt ? eBin(OLShr, a, b) : eSExt(eExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
        if (op == OShl && b->c < w) return eConcat(eExtract(a, 0, w - (unsigned)b->c), eConst((unsigned)b->c, 0));
        if (op == OAnd || op == OOr || op == OXor) {
            unsigned len[6]; bool one[6]; unsigned n = maskRuns(b->c, w, len, one, 6);
            if (n > 1) {
                E r = nullptr; unsigned lo = 0;
                for (unsigned i = 0; i < n; ++i) {
                    E x = eBin(op, eExtract(a, lo, len[i]), eConst(len[i], one[i] ? ~(u128)0 : 0));
                    r = r ? eConcat(x, r) : x; lo += len[i];
                }
                return r;
            }
        }
    }
    if ((op == OAnd || op == OOr || op == OXor) && !isC(b) && (isPieces(a) || isPieces(b))) {
        unsigned cut = isPieces(a) ? cutOf(a) : cutOf(b);
        return eConcat(eBin(op, eExtract(a, cut, w - cut), eExtract(b, cut, w - cut)), eBin(op, eExtract(a, 0, cut), eExtract(b, 0, cut)));
    }
    if (op == OEq && (a->op == OConcat && (b->op == OConcat || b->op == OZExt || isC(b)) || b->op == OConcat && a->op == OZExt)) {
        unsigned cut = a->op == OConcat ? cutOf(a) : cutOf(b);
        return eBin(OAnd, eBin(OEq, eExtract(a, cut, w - cut), eExtract(b, cut, w - cut)), eBin(OEq, eExtract(a, 0, cut), eExtract(b, 0, cut)));
    }
    if ((op == OSlt || op == OSle) && a->op == OZExt && b->op == OZExt) return eBin(op == OSlt ? OUlt : OUle, a, b);
    if ((op == OUlt || op == OUle) && a->op == OZExt && b->op == OZExt) {
        unsigned iw = std::max(a->k[0]->w, b->k[0]->w);
        if (iw < w) return eBin(op, eZExt(a->k[0], iw), eZExt(b->k[0], iw));
    }
    if (op == OEq && a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return eBin(OEq, a->k[0], b->k[0]);
    if (op == OEq && a->op == OSExt && b->op == OSExt && a->k[0]->w == b->k[0]->w) return eBin(OEq, a->k[0], b->k[0]);
    if (op == OSub && a->op == OAdd && isC(a->k[1]) && a->k[0] == b) return a->k[1];
    if (op == OSub && a->op == OAdd && b->op == OAdd && isC(a->k[1]) && isC(b->k[1]) && a->k[0] == b->k[0])
        return eConst(w, a->k[1]->c - b->k[1]->c);
    return mk(op, rw, a, b);
}
// extract which does not distribute over arithmetic, so that the parts of a stored value join again when it is loaded
E eExtractRaw(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (lo == 0 && (a->op == OAdd || a->op == OSub || a->op == OMul)) return mk(OExtract, w, a, nullptr, nullptr, 0);
    if (a->op == OExtract) return eExtractRaw(a->k[0], (unsigned)a->c + lo, w);
    return eExtract(a, lo, w);
}
static E eConcat0(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return eConst(w, (hi->c << lo->w) | lo->c);
    if (isC(hi) && hi->c == 0) return eZExt(lo, w);
    if (hi->op == OConcat) return eConcat(hi->k[0], eConcat(hi->k[1], lo));
    if (hi->op == OZExt) return eZExt(eConcat(hi->k[0], lo), w);
    // concat(extract(x,a+n..), extract(x,a..)) -> extract
    if (hi->op == OExtract && lo->op == OExtract && hi->k[0] == lo->k[0] && (unsigned)hi->c == (unsigned)lo->c + lo->w)
        return eExtractRaw(lo->k[0], (unsigned)lo->c, w);
    if (hi->op == OIte && lo->op == OIte && hi->k[0] == lo->k[0] && ((isC(hi->k[1]) && isC(lo->k[1])) || (isC(hi->k[2]) && isC(lo->k[2])))) return eIte(hi->k[0], eConcat(hi->k[1], lo->k[1]), eConcat(hi->k[2], lo->k[2]));
    if (lo->op == OConcat) {
        E mid = lo->k[0];
        if (hi->op == OExtract && mid->op == OExtract && hi->k[0] == mid->k[0] && (unsigned)hi->c == (unsigned)mid->c + mid->w)
            return eConcat(eExtractRaw(mid->k[0], (unsigned)mid->c, hi->w + mid->w), lo->k[1]);
        if (hi->op == OIte && mid->op == OIte && hi->k[0] == mid->k[0] && ((isC(hi->k[1]) && isC(mid->k[1])) || (isC(hi->k[2]) && isC(mid->k[2])))) return eConcat(eConcat(hi, mid), lo->k[1]);
        if (isC(hi) && isC(mid)) return eConcat(eConcat(hi, mid), lo->k[1]);
    }
    if (lo->op == OExtract && lo->c == 0 && hi->op == OZExt && 0) {}
    return mk(OConcat, w, hi, lo);
}
static E eExtract0(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return eConst(w, a->c >> lo);
    switch (a->op) {
    case OExtract: return eExtract(a->k[0], (unsigned)a->c + lo, w);
    case OConcat: {
        unsigned lw = a->k[1]->w;
        if (lo + w <= lw) return eExtract(a->k[1], lo, w);
        if (lo >= lw) return eExtract(a->k[0], lo - lw, w);
        return eConcat(eExtract(a->k[0], 0, lo + w - lw), eExtract(a->k[1], lo, lw - lo));
    }
    case OZExt: {
        unsigned iw = a->k[0]->w;
        if (lo >= iw) return eConst(w, 0);
        if (lo + w <= iw) return eExtract(a->k[0], lo, w);
        return eZExt(eExtract(a->k[0], lo, iw - lo), w);
    }
    case OSExt: {
        unsigned iw = a->k[0]->w;
        if (lo + w <= iw) return eExtract(a->k[0], lo, w);
        if (lo < iw) return eSExt(eExtract(a->k[0], lo, iw - lo), w);
        break;
    }
    case OIte:
        if (isC(a->k[1]) || isC(a->k[2])) return eIte(a->k[0], eExtract(a->k[1], lo, w), eExtract(a->k[2], lo, w));
        break;
    case OAnd: case OOr: case OXor:
        return eBin(a->op, eExtract(a->k[0], lo, w), eExtract(a->k[1], lo, w));
    case OAdd: case OSub: case OMul:
        if (lo == 0) return eBin(a->op, eExtract(a->k[0], 0, w), eExtract(a->k[1], 0, w));
        break;
    case OShl: if (isC(a->k[1])) {
        unsigned s = (unsigned)a->k[1]->c;
        if (lo >= s) return eExtract(a->k[0], lo - s, w);
        if (lo + w <= s) return eConst(w, 0);
        return eConcat(eExtract(a->k[0], 0, lo + w - s), eConst(s - lo, 0));
    } break;
    case OLShr: if (isC(a->k[1])) {
        unsigned s = (unsigned)a->k[1]->c;
        if (lo + s + w <= a->w) return eExtract(a->k[0], lo + s, w);
        if (lo + s >= a->w) return eConst(w, 0);
        return eZExt(eExtract(a->k[0], lo + s, a->w - lo - s), w);
    } break;
    default: break;
    }
    return mk(OExtract, w, a, nullptr, nullptr, lo);
}
E eZExt(E a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return eConst(w, a->c);
    if (a->op == OZExt) return eZExt(a->k[0], w);
    return mk(OZExt, w, a);
}
E eSExt(E a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return eConst(w, sext128(a->c, a->w));
    if (a->op == OSExt) return eSExt(a->k[0], w);
    if (a->op == OZExt) return eZExt(a->k[0], w);
    return mk(OSExt, w, a);
}
static E eIte0(E c, E a, E b) {
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1 && isC(a) && isC(b)) return a->c ? c : eNot(c);
    if (a->w == 1) {
        if (isC(a)) return a->c ? eBin(OOr, c, b) : eBin(OAnd, eNot(c), b);
        if (isC(b)) return b->c ? eBin(OOr, eNot(c), a) : eBin(OAnd, c, a);
    }
    if (c->op == OXor && isC(c->k[1])) return eIte(c->k[0], b, a);
    if (c->op == OEq) for (int i = 0; i < 2; ++i) if (isC(c->k[i]) && !isC(a) && a == c->k[1 - i]) return eIte(c, c->k[i], b);
    return mk(OIte, a->w, c, a, b);
}

const std::vector<uint32_t>& eVars(E e) {
    if (e->vars) return *e->vars;
    static const std::vector<uint32_t> empty;
    if (e->op == OConst) { e->vars = &empty; return empty; }
    auto* v = new std::vector<uint32_t>;
    if (e->op == OVar) v->push_back((uint32_t)e->c);
    else {
        const std::vector<uint32_t>* only = nullptr; unsigned n = 0;
        for (unsigned i = 0; i < e->nk; ++i) { auto& x = eVars(e->k[i]); if (!x.empty() && &x != only) { only = &x; ++n; } }
        if (n <= 1) { delete v; e->vars = only ? only : &empty; return *e->vars; }
        for (unsigned i = 0; i < e->nk; ++i) { auto& x = eVars(e->k[i]); v->insert(v->end(), x.begin(), x.end()); }
        std::sort(v->begin(), v->end());
        v->erase(std::unique(v->begin(), v->end()), v->end());
    }
    e->vars = v;
    return *v;
}

static uint64_t g_epoch = 1;
void eEvalNewEpoch() { ++g_epoch; }
static u128 ev(E e, const Model& m) {
    if (e->op == OConst) return e->c;
    if (e->evEpoch == g_epoch) return e->ev;
    u128 r;
    switch (e->op) {
    case OVar: r = m.get((uint32_t)e->c) & maskw(e->w); break;
    case OConcat: r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m); break;
    case OExtract: r = (ev(e->k[0], m) >> (unsigned)e->c) & maskw(e->w); break;
    case OZExt: r = ev(e->k[0], m); break;
    case OSExt: r = sext128(ev(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
    case OIte: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
    case OFAdd: case OFSub: case OFMul: case OFDiv: case OFCmp: case OFCvt: case OFRound: case OSToF: case OUToF: case OFToS: case OFToU: r = foldF(e->op, e->w, e->k[0]->w, ev(e->k[0], m), e->nk > 1 ? ev(e->k[1], m) : 0, (unsigned)e->c); break;
    default: r = fold(e->op, e->k[0]->w, ev(e->k[0], m), ev(e->k[1], m));
    }
    e->evEpoch = g_epoch; e->ev = r;
    return r;
}
u128 eEval(E e, const Model& m) { eEvalNewEpoch(); return ev(e, m); }

// ---------------------------------------------------------------- Z3
static Z3_context g_ctx;
static Z3_solver g_solver;
static std::vector<E> g_stack; // asserted constraints, one push level each
static uint64_t g_asserted;
static Z3_ast toZ3(E e);
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void newSolver() {
    if (g_solver) Z3_solver_dec_ref(g_ctx, g_solver);
    g_solver = Z3_mk_solver_for_logic(g_ctx, Z3_mk_string_symbol(g_ctx, "QF_BV"));
    Z3_solver_inc_ref(g_ctx, g_solver);
    Z3_params p = Z3_mk_params(g_ctx); Z3_params_inc_ref(g_ctx, p);
    Z3_params_set_uint(g_ctx, p, Z3_mk_string_symbol(g_ctx, "timeout"), g_solverTimeoutMs);
    Z3_solver_set_params(g_ctx, g_solver, p);
    Z3_params_dec_ref(g_ctx, p);
    g_stack.clear(); g_asserted = 0;
}
static void initZ3() {
    if (g_ctx) return;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    g_ctx = Z3_mk_context(cfg); // no ref counting of asts: kept for the lifetime of the process
    Z3_set_error_handler(g_ctx, z3err);
    newSolver();
}
static Z3_ast bvNum(unsigned w, u128 v) {
    Z3_sort s = Z3_mk_bv_sort(g_ctx, w);
    if (!(v >> 64)) return Z3_mk_unsigned_int64(g_ctx, (uint64_t)v, s);
    char buf[64]; int n = 0; std::string d; while (v) { d.push_back('0' + (int)(v % 10)); v /= 10; } std::reverse(d.begin(), d.end()); (void)buf; (void)n;
    return Z3_mk_numeral(g_ctx, d.c_str(), s);
}
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(g_ctx, b, bvNum(1, 1), bvNum(1, 0)); }
// boolean view of a width-1 node
static Z3_ast toBool(E e) {
    switch (e->op) {
    case OConst: return e->c ? Z3_mk_true(g_ctx) : Z3_mk_false(g_ctx);
    case OEq: return Z3_mk_eq(g_ctx, toZ3(e->k[0]), toZ3(e->k[1]));
    case OUlt: return Z3_mk_bvult(g_ctx, toZ3(e->k[0]), toZ3(e->k[1]));
    case OUle: return Z3_mk_bvule(g_ctx, toZ3(e->k[0]), toZ3(e->k[1]));
    case OSlt: return Z3_mk_bvslt(g_ctx, toZ3(e->k[0]), toZ3(e->k[1]));
    case OSle: return Z3_mk_bvsle(g_ctx, toZ3(e->k[0]), toZ3(e->k[1]));
    case OAnd: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; return Z3_mk_and(g_ctx, 2, a); }
    case OOr: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; return Z3_mk_or(g_ctx, 2, a); }
    case OXor: return Z3_mk_xor(g_ctx, toBool(e->k[0]), toBool(e->k[1]));
    default: return Z3_mk_eq(g_ctx, toZ3(e), bvNum(1, 1));
    }
}
static Z3_sort fpSort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(g_ctx) : Z3_mk_fpa_sort_64(g_ctx); }
static Z3_ast asFp(E e) { return Z3_mk_fpa_to_fp_bv(g_ctx, toZ3(e), fpSort(e->w)); }
static Z3_ast fpToZ3(E e) {
    Z3_ast rne = Z3_mk_fpa_rne(g_ctx), rtz = Z3_mk_fpa_rtz(g_ctx), r; E a = e->k[0];
    switch (e->op) {
    case OFAdd: r = Z3_mk_fpa_add(g_ctx, rne, asFp(a), asFp(e->k[1])); break;
    case OFSub: r = Z3_mk_fpa_sub(g_ctx, rne, asFp(a), asFp(e->k[1])); break;
    case OFMul: r = Z3_mk_fpa_mul(g_ctx, rne, asFp(a), asFp(e->k[1])); break;
    case OFDiv: r = Z3_mk_fpa_div(g_ctx, rne, asFp(a), asFp(e->k[1])); break;
    case OFCvt: r = Z3_mk_fpa_to_fp_float(g_ctx, rne, asFp(a), fpSort(e->w)); break;
    case OFRound: r = Z3_mk_fpa_round_to_integral(g_ctx, e->c == 0 ? Z3_mk_fpa_rtn(g_ctx) : e->c == 1 ? Z3_mk_fpa_rtp(g_ctx) : rtz, asFp(a)); break;
    case OSToF: r = Z3_mk_fpa_to_fp_signed(g_ctx, rne, toZ3(a), fpSort(e->w)); break;
    case OUToF: r = Z3_mk_fpa_to_fp_unsigned(g_ctx, rne, toZ3(a), fpSort(e->w)); break;
    case OFCmp: { Z3_ast x = asFp(a), y = asFp(e->k[1]), p[4]; unsigned n = 0; if (e->c & 1) p[n++] = Z3_mk_fpa_eq(g_ctx, x, y); if (e->c & 2) p[n++] = Z3_mk_fpa_gt(g_ctx, x, y); if (e->c & 4) p[n++] = Z3_mk_fpa_lt(g_ctx, x, y);
        if (e->c & 8) { Z3_ast q[2] = {Z3_mk_fpa_is_nan(g_ctx, x), Z3_mk_fpa_is_nan(g_ctx, y)}; p[n++] = Z3_mk_or(g_ctx, 2, q); } return b2v(n ? Z3_mk_or(g_ctx, n, p) : Z3_mk_false(g_ctx)); }
    case OFToS: case OFToU: { bool sg = e->op == OFToS; Z3_sort fs = fpSort(a->w); Z3_ast t = Z3_mk_fpa_round_to_integral(g_ctx, rtz, asFp(a)), lo = Z3_mk_fpa_numeral_double(g_ctx, sg ? -std::ldexp(1.0, e->w - 1) : 0, fs), hi = Z3_mk_fpa_numeral_double(g_ctx, std::ldexp(1.0, sg ? e->w - 1 : e->w), fs);
        Z3_ast in[2] = {Z3_mk_fpa_geq(g_ctx, t, lo), Z3_mk_fpa_lt(g_ctx, t, hi)}; return Z3_mk_ite(g_ctx, Z3_mk_and(g_ctx, 2, in), sg ? Z3_mk_fpa_to_sbv(g_ctx, rtz, asFp(a), e->w) : Z3_mk_fpa_to_ubv(g_ctx, rtz, asFp(a), e->w), bvNum(e->w, (u128)1 << (e->w - 1))); }
    default: abort();
    }
    return Z3_mk_fpa_to_ieee_bv(g_ctx, r);
}
static Z3_ast toZ3(E e) {
    if (e->z) return e->z;
    Z3_ast r;
    if (e->op >= OFAdd) { r = fpToZ3(e); e->z = r; return r; }
    switch (e->op) {
    case OConst: r = bvNum(e->w, e->c); break;
    case OVar: r = Z3_mk_const(g_ctx, Z3_mk_int_symbol(g_ctx, (int)e->c), Z3_mk_bv_sort(g_ctx, e->w)); break;
    case OAdd: r = Z3_mk_bvadd(g_ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
    case OSub: r = Z3_mk_bvsub(g_ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
    case OMul: r = Z3_mk_bvmul(g_ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
    case OUDiv: r = Z3_mk_bvudiv(g_ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
    case OSDiv: r = Z3_mk_bvsdiv(g_ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
    case OURem: r = Z3_mk_bvurem(g_ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
    case OSRem: r = Z3_mk_bvsrem(g_ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
    case OAnd: r = e->w == 1 ? b2v(toBool(e)) : Z3_mk_bvand(g_ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
    case OOr: r = e->w == 1 ? b2v(toBool(e)) : Z3_mk_bvor(g_ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
    case OXor: r = e->w == 1 ? b2v(toBool(e)) : Z3_mk_bvxor(g_ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
    case OShl: r = Z3_mk_bvshl(g_ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
    case OLShr: r = Z3_mk_bvlshr(g_ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
    case OAShr: r = Z3_mk_bvashr(g_ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
    case OEq: case OUlt: case OUle: case OSlt: case OSle: r = b2v(toBool(e)); break;
    case OConcat: r = Z3_mk_concat(g_ctx, toZ3(e->k[0]), toZ3(e->k[1])); break;
    case OExtract: r = Z3_mk_extract(g_ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, toZ3(e->k[0])); break;
    case OZExt: r = Z3_mk_zero_ext(g_ctx, e->w - e->k[0]->w, toZ3(e->k[0])); break;
    case OSExt: r = Z3_mk_sign_ext(g_ctx, e->w - e->k[0]->w, toZ3(e->k[0])); break;
    case OIte: r = Z3_mk_ite(g_ctx, toBool(e->k[0]), toZ3(e->k[1]), toZ3(e->k[2])); break;
    default: abort();
    }
    e->z = r;
    return r;
}

// ---------------------------------------------------------------- confirmation of the rewriting
static std::unordered_set<E, Hash, EqN> g_lem; static std::deque<Node> g_lemArena; static Z3_solver g_lemSolver; static uint64_t g_lemN;
double g_lemBudget = 4;
static void lemma(Op op, unsigned w, E a, E b, E c, u128 k, E r) {
    bool cmp = isC(r) && w == 1;
    if (a->fp || (b && b->fp) || (c && c->fp)) { ++g_sst.rwSkipped; return; }
    if (!cmp && g_sst.rwSecs > g_lemBudget) { ++g_sst.rwSkipped; return; }
    if (r->op == op && r->k[0] == a && r->k[1] == b && r->k[2] == c && r->c == k) return;
    Node n; n.op = op; n.w = w; n.k[0] = a; n.k[1] = b; n.k[2] = c; n.nk = (a ? 1 : 0) + (b ? 1 : 0) + (c ? 1 : 0); n.c = k; n.id = 0;
    if (g_lem.count(&n)) return;
    if (g_sst.rwSecs > 2 * g_lemBudget || g_lem.size() > 200000) { ++g_sst.rwSkipped; return; }
    g_lemArena.push_back(n); g_lem.insert(&g_lemArena.back());
    initZ3();
    auto t0 = std::chrono::steady_clock::now();
    if (!g_lemSolver || ++g_lemN % 5000 == 0) {
        if (g_lemSolver) Z3_solver_dec_ref(g_ctx, g_lemSolver);
        g_lemSolver = Z3_mk_solver_for_logic(g_ctx, Z3_mk_string_symbol(g_ctx, "QF_BV")); Z3_solver_inc_ref(g_ctx, g_lemSolver);
        Z3_params p = Z3_mk_params(g_ctx); Z3_params_inc_ref(g_ctx, p); Z3_params_set_uint(g_ctx, p, Z3_mk_string_symbol(g_ctx, "timeout"), 5000); Z3_solver_set_params(g_ctx, g_lemSolver, p); Z3_params_dec_ref(g_ctx, p);
    }
    Z3_ast raw = toZ3(&n), ne = Z3_mk_not(g_ctx, Z3_mk_eq(g_ctx, raw, toZ3(r)));
    Z3_solver_push(g_ctx, g_lemSolver); Z3_solver_assert(g_ctx, g_lemSolver, ne);
    Z3_lbool v = Z3_solver_check(g_ctx, g_lemSolver); Z3_solver_pop(g_ctx, g_lemSolver, 1);
    g_sst.rwSecs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (v == Z3_L_FALSE) { ++g_sst.rwConfirmed; if (cmp) ++g_sst.rwDecided; }
    else if (v == Z3_L_TRUE) { fprintf(stderr, "vfse: wrong rewriting: %s -> %s\n", eStr(&n, 8).c_str(), eStr(r, 8).c_str()); exit(3); }
    else ++g_sst.rwSkipped;
}
struct CacheVal { SatRes r; std::vector<std::pair<uint32_t, u128>> m; };
struct KeyHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 1469598103u; for (auto x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull; return h ^ (h >> 31); } };
static std::unordered_map<std::vector<uint32_t>, CacheVal, KeyHash> g_cache;

SatRes solve(const std::vector<E>& pc, E cond, ModelP base, ModelP& out) {
    if (isC(cond)) { if (!cond->c) return UNSAT; }
    initZ3();
    // slice: constraints transitively sharing variables with cond
    std::vector<char> in(pc.size(), 0);
    std::vector<uint32_t> work = eVars(cond);
    static std::vector<uint32_t> mark; static uint32_t stamp = 0; ++stamp;
    if (mark.size() < g_vars.size()) mark.resize(g_vars.size() + 256, 0);
    for (auto v : work) mark[v] = stamp;
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); ++i) if (!in[i]) {
            auto& vs = eVars(pc[i]); bool hit = false;
            for (auto v : vs) if (mark[v] == stamp) { hit = true; break; }
            if (hit) { in[i] = 1; ch = true; for (auto v : vs) if (mark[v] != stamp) { mark[v] = stamp; work.push_back(v); } }
        }
    }
    std::vector<uint32_t> key; std::vector<E> cs;
    for (size_t i = 0; i < pc.size(); ++i) if (in[i]) { key.push_back(pc[i]->id); }
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(cond->id);
    auto it = g_cache.find(key);
    if (it == g_cache.end()) {
        for (size_t i = 0; i < pc.size(); ++i) if (in[i]) cs.push_back(pc[i]);
        if (g_asserted > 50000) newSolver();
        auto t0 = std::chrono::steady_clock::now();
        bool fp = cond->fp; for (E c : cs) fp |= c->fp;
        Z3_solver inc = g_solver; std::vector<E> incStack;
        if (fp) { // a solver of its own: the floating point theory has no useful incremental mode
            incStack.swap(g_stack); g_solver = Z3_mk_solver_for_logic(g_ctx, Z3_mk_string_symbol(g_ctx, "QF_BVFP")); Z3_solver_inc_ref(g_ctx, g_solver);
            Z3_params p = Z3_mk_params(g_ctx); Z3_params_inc_ref(g_ctx, p); Z3_params_set_uint(g_ctx, p, Z3_mk_string_symbol(g_ctx, "timeout"), g_solverTimeoutMs); Z3_solver_set_params(g_ctx, g_solver, p); Z3_params_dec_ref(g_ctx, p);
            for (E c : cs) Z3_solver_assert(g_ctx, g_solver, toBool(c));
        }
        size_t common = fp ? cs.size() : 0;
        while (!fp && common < g_stack.size() && common < cs.size() && g_stack[common] == cs[common]) ++common;
        if (!fp && g_stack.size() > common) { Z3_solver_pop(g_ctx, g_solver, g_stack.size() - common); g_stack.resize(common); }
        for (size_t i = common; i < cs.size(); ++i) {
            Z3_solver_push(g_ctx, g_solver); Z3_solver_assert(g_ctx, g_solver, toBool(cs[i])); g_stack.push_back(cs[i]); ++g_asserted;
        }
        if (!fp) Z3_solver_push(g_ctx, g_solver);
        Z3_solver_assert(g_ctx, g_solver, toBool(cond)); ++g_asserted;
        Z3_lbool r = Z3_solver_check(g_ctx, g_solver);
        ++g_sst.queries;
        CacheVal cv;
        if (r == Z3_L_TRUE) {
            cv.r = SAT; ++g_sst.sat;
            Z3_model mo = Z3_solver_get_model(g_ctx, g_solver);
            Z3_model_inc_ref(g_ctx, mo);
            unsigned n = Z3_model_get_num_consts(g_ctx, mo);
            std::unordered_map<uint32_t, u128> got;
            for (unsigned i = 0; i < n; ++i) {
                Z3_func_decl d = Z3_model_get_const_decl(g_ctx, mo, i);
                Z3_symbol s = Z3_get_decl_name(g_ctx, d);
                if (Z3_get_symbol_kind(g_ctx, s) != Z3_INT_SYMBOL) continue;
                uint32_t vi = (uint32_t)Z3_get_symbol_int(g_ctx, s);
                Z3_ast a = Z3_model_get_const_interp(g_ctx, mo, d);
                if (!a) continue;
                const char* str = Z3_get_numeral_string(g_ctx, a);
                u128 v = 0; for (; *str; ++str) v = v * 10 + (*str - '0');
                got[vi] = v;
            }
            for (auto v : work) { auto g = got.find(v); cv.m.push_back({v, g == got.end() ? (u128)0 : g->second}); }
            Z3_model_dec_ref(g_ctx, mo);
        } else if (r == Z3_L_FALSE) { cv.r = UNSAT; ++g_sst.unsat; }
        else { cv.r = UNKNOWN; ++g_sst.unknown; }
        if (fp) { Z3_solver_dec_ref(g_ctx, g_solver); g_solver = inc; g_stack.swap(incStack); } else Z3_solver_pop(g_ctx, g_solver, 1);
        double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        g_sst.secs += s; if (s > g_sst.maxsecs) g_sst.maxsecs = s;
        if (getenv("VF_SLOWQ") && s > atof(getenv("VF_SLOWQ"))) fprintf(stderr, "slow query %.2fs: %s\n", s, eStr(cond, 12).c_str());
        if (g_cache.size() > 400000) g_cache.clear();
        it = g_cache.emplace(std::move(key), std::move(cv)).first;
    } else ++g_sst.cacheHits;
    if (it->second.r == SAT) {
        auto m = base ? std::make_shared<Model>(*base) : std::make_shared<Model>();
        for (auto& p : it->second.m) m->set(p.first, p.second);
        out = m;
    }
    return it->second.r;
}

std::string eStr(E e, int depth) {
    static const char* names[] = {"c", "v", "+", "-", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", ">>u", ">>s", "==", "u<", "u<=", "s<", "s<=", "concat", "extract", "zext", "sext", "ite", "f+", "f-", "f*", "f/", "fcmp", "fcvt", "fround", "s2f", "u2f", "f2s", "f2u"};
    if (e->op == OConst) { char b[40]; snprintf(b, 40, "%llu:%u", (unsigned long long)e->c, e->w); return b; }
    if (e->op == OVar) return g_vars[(uint32_t)e->c].name;
    if (!depth) return "...";
    std::string s = "("; s += names[e->op];
    if (e->op == OExtract) s += "[" + std::to_string((unsigned)e->c) + "+" + std::to_string(e->w) + "]";
    for (unsigned i = 0; i < e->nk; ++i) s += " " + eStr(e->k[i], depth - 1);
    return s + ")";
}
