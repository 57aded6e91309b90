#include "vf.h"
#include <itlib/transparent_umap.hpp>
#ifdef VF_ENGINE
// libstdc++'s rehash policy is in the shared library and uses floating point; this stand-in keeps its contract (maximal load factor 1)
namespace std { namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { static const unsigned char p[] = {1, 2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 47, 59, 73, 97}; for (unsigned char x : p) if (x >= n) { _M_next_resize = x; return x; } vf_fail("harness: too many buckets"); }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t elt, std::size_t ins) const { if (elt + ins > bkt) return {true, _M_next_bkt(elt + ins + (bkt == 1 ? 2 : 0))}; return {false, 0}; }
} }
#endif
static uint8_t g_mask; static unsigned g_built; // keys which were made (not by a move)
struct Key { uint8_t id; explicit Key(uint8_t i) : id(i) { ++g_built; vf_live_add(this, 3); } Key(const Key& o) : id(o.id) { ++g_built; vf_live_add(this, 3); } Key(Key&& o) noexcept : id(o.id) { vf_live_add(this, 3); } ~Key() { vf_check(vf_live_del(this), "key destroyed twice"); id = 0xee; } Key& operator=(const Key&) = delete; };
struct View { using is_transparent = void; uint8_t id; const Key* k = nullptr; View(uint8_t i) : id(i) {} View(const Key& k) : id(k.id), k(&k) {} explicit operator Key() const { return Key(id); } };
struct Hash { using is_transparent = void; static size_t of(uint8_t i) { return (size_t)vf_concretize(i & g_mask); } size_t operator()(const Key& k) const { return of(k.id); } size_t operator()(const View& k) const { return of(k.id); } };
struct Eq { using is_transparent = void; bool operator()(const Key& a, const Key& b) const { return a.id == b.id; } bool operator()(const Key& a, const View& b) const { return a.id == b.id; } bool operator()(const View& a, const Key& b) const { return a.id == b.id; } };
struct Val : vf::Tracked<4> { static int copies; Val() : Tracked(0u) {} Val(uint32_t x) : Tracked(x) {} Val(uint32_t a, uint32_t b) : Tracked(a * 2 + b) {} Val(const Val& o) : Tracked(o) { ++copies; } Val(Val&& o) noexcept : Tracked(std::move(o)) {} Val& operator=(Val&&) = default; Val& operator=(const Val&) = default; };
int Val::copies;
using M = itlib::transparent_umap<Key, Val, Hash, Eq>; using B = std::unordered_map<Key, Val, Hash, Eq>;
struct Ref { uint8_t id; uint32_t v; const Key* k; Val* p; };
template <class Op> static void history(Op extra, size_t pre = 0) {
    g_mask = (const uint8_t[]){0, 1, 0}[vf::pick("mask", 2)]; if (pre && g_mask) g_mask = 7; g_built = 0; Val::copies = 0; {
    M m; const M& cm = m; B& b = m; Ref r[24]; size_t n = 0, ops = vf_param("ops", 3);
    for (; n < pre; ++n) { auto x = m.try_emplace(View(uint8_t(n * 5)), uint32_t(n)); r[n] = {uint8_t(n * 5), uint32_t(n), &x.first->first, &x.first->second}; }
    for (size_t k = 0; k < ops; ++k) {
        uint8_t id = vf::u8("id"); uint32_t v = vf::u32("v"); size_t at = 0; while (at < n && r[at].id != id) ++at; bool has = at < n; unsigned built = g_built; size_t op = vf::pick("op", k || pre ? 17 : 13); if (op >= 12) op = (op == 12) ? 16 : op - 1; Val* got = nullptr; uint32_t fresh = 0; bool ins = false; Val arg(v); unsigned mine = 0; (void)mine;
        switch (op) {
        case 0: got = &m[View(id)]; break;
        case 1: { View w(id); got = &m[w]; break; }
        case 2: { const View w(id); auto x = m.try_emplace(w, v); got = &x.first->second; fresh = v; vf_check(x.second == !has, "try_emplace reports another outcome"); ins = true; break; }
        case 3: { auto x = m.try_emplace(View(id), v, 7u); got = &x.first->second; fresh = v * 2 + 7; vf_check(x.second == !has && x.first->first.id == id, "try_emplace reports another outcome"); ins = true; break; }
        case 4: { auto x = m.try_emplace(View(id), std::move(arg)); got = &x.first->second; fresh = v; vf_check(x.second == !has, "try_emplace reports another outcome"); vf_check(has ? arg.v == v : arg.v == Val::MOVED, "try_emplace moves from its argument exactly if it inserts"); vf_check(!Val::copies, "try_emplace copies a value"); ins = true; break; }
        case 5: { auto x = m.try_emplace(m.cbegin(), View(id), v); M::iterator it = x; got = &it->second; fresh = v; vf_check(it->first.id == id, "try_emplace returns another element"); ins = true; break; }
        case 6: { auto x = m.try_emplace(m.cend(), View(id)); M::iterator it = x; got = &it->second; vf_check(it->first.id == id, "try_emplace returns another element"); ins = true; break; }
        case 7: { bool thrown = false; try { got = &m.at(View(id)); } catch (const std::out_of_range&) { thrown = true; } vf_check(thrown == !has, "at throws not exactly if there is no element"); break; }
        case 8: { bool thrown = false; try { got = const_cast<Val*>(&cm.at(View(id))); } catch (const std::out_of_range&) { thrown = true; } vf_check(thrown == !has, "at throws not exactly if there is no element"); break; }
        case 9: { Key q(id); built = g_built; got = &m[std::move(q)]; break; }
        case 10: { const Key q(id); got = &m[q]; built = has ? g_built : built + 1; if (!has) --g_built; break; }
        case 11: { Key q(id); built = g_built; bool thrown = false; try { got = &m.at(q); vf_check(got == &cm.at(q), "at returns another element"); } catch (const std::out_of_range&) { thrown = true; } vf_check(thrown == !has, "at throws not exactly if there is no element"); break; }
        case 12: { Key q(id); built = g_built; size_t c = m.erase(q); vf_check(c == has, "erase reports another outcome"); if (has) { r[at] = r[--n]; at = n; } has = false; break; }
        case 13: { Key q(id); auto x = m.try_emplace(std::move(q), v); built = g_built; got = &x.first->second; fresh = v; vf_check(x.second == !has, "try_emplace reports another outcome"); break; }
        case 14: { auto x = m.emplace(Key(id), Val(v)); built = g_built; got = &x.first->second; fresh = v; vf_check(x.second == !has, "emplace reports another outcome"); break; }
        case 16: { auto x = m.try_emplace(m.cend(), View(id), std::move(arg)); M::iterator it = x; got = &it->second; fresh = v; vf_check(it->first.id == id, "try_emplace returns another element"); vf_check(has ? arg.v == v : arg.v == Val::MOVED, "try_emplace moves from its argument exactly if it inserts"); vf_check(!Val::copies, "try_emplace copies a value"); ins = true; break; }
        default: { M c(m), d(std::move(c)); built = g_built; Val::copies = 0; vf_check(d.size() == n, "a copy has another size"); bool thrown = false; uint32_t y = 0; try { y = d.at(View(id)).v; } catch (const std::out_of_range&) { thrown = true; } vf_check(thrown == !has && (thrown || y == r[at].v), "a copy has other elements"); if (has) { d[View(id)].v = ~r[at].v; } m.max_load_factor(); break; }
        }
        if ((op < 14 || op == 16) && op != 7 && op != 8 && op != 11 && op != 12 && !has) { vf_check(got->v == fresh, "a new element has another value"); if (op < 9 || op == 16) vf_check(g_built == built + 1, "an insertion builds not exactly one key"); r[n++] = {id, fresh, nullptr, got}; r[n - 1].k = &m.find(View(id))->first; vf_check(r[n - 1].k->id == id, "a new element has another key"); }
        else if (op == 14 && !has) { r[n++] = {id, fresh, nullptr, got}; r[n - 1].k = &m.find(View(id))->first; }
        else { if (op != 15) vf_check(g_built == built, "finding an element builds a key"); if (got) vf_check(has && got == r[at].p, "another element is found"); if (op != 4 && op != 14 && op != 16) vf_check(arg.v == v, "an argument which is not used changes"); }
        (void)ins; if (got && vf::flag("write")) { uint32_t& mv = r[at].v; mv = vf::u32("new"); got->v = mv; }
        vf_check(m.size() == n && b.size() == n && m.empty() == !n, "the number of elements differs"); size_t seen = 0; for (auto& e : m) { (void)e; ++seen; } vf_check(seen == n, "iteration visits another number of elements");
        for (size_t i = 0; i < n; ++i) { vf_check(r[i].k->id == r[i].id && r[i].p->v == r[i].v, "an existing element changes"); auto f = b.find(Key(r[i].id)); vf_check(f != b.end() && &f->second == r[i].p, "an existing element is not found or has moved"); }
        g_built = 0; Val::copies = 0; extra(m);
    } } vf_check(vf_live_count(3) == 0 && vf_live_count(4) == 0, "an element is not destroyed"); vf_reach("end");
}
VF_ENTRY history() { history([](M&) {}); }
VF_ENTRY big() { history([](M&) {}, vf::flag("many") ? 18 : 7); }
// a map whose hash is not transparent works like the std::unordered_map it is
struct PHash { size_t operator()(uint32_t k) const { return (size_t)vf_concretize(k & g_mask); } };
VF_ENTRY plain() {
    g_mask = (uint8_t)vf::pick("mask", 2); itlib::transparent_umap<uint32_t, uint32_t, PHash> m; const auto& cm = m; struct { uint32_t k, v; } r[8]; size_t n = 0, ops = vf_param("ops", 3);
    for (size_t k = 0; k < ops; ++k) {
        uint32_t id = vf::u32("id"), v = vf::u32("v"); size_t at = 0; while (at < n && r[at].k != id) ++at; bool has = at < n;
        switch (vf::pick("op", 6)) {
        case 0: m[id] = v; if (!has) r[n++].k = id; r[at].v = v; break;
        case 1: { auto x = m.try_emplace(id, v); vf_check(x.second == !has && x.first->first == id && x.first->second == (has ? r[at].v : v), "try_emplace reports another outcome"); if (!has) r[n++] = {id, v}; break; }
        case 2: { auto x = m.try_emplace(m.begin(), id, v); vf_check(x->first == id && x->second == (has ? r[at].v : v), "try_emplace returns another element"); if (!has) r[n++] = {id, v}; break; }
        case 3: { bool t = false; try { uint32_t& y = m.at(id); vf_check(has && y == r[at].v && &cm.at(id) == &y, "another element is found"); } catch (const std::out_of_range&) { t = true; } vf_check(t == !has, "at throws not exactly if there is no element"); break; }
        case 4: { bool t = false; try { vf_check(cm.at(id) == r[at].v, "another element is found"); } catch (const std::out_of_range&) { t = true; } vf_check(t == !has, "at throws not exactly if there is no element"); break; }
        default: vf_check(m.erase(id) == has, "erase reports another outcome"); if (has) r[at] = r[--n]; break;
        }
        vf_check(m.size() == n, "the number of elements differs"); for (size_t i = 0; i < n; ++i) { auto f = m.find(r[i].k); vf_check(f != m.end() && f->second == r[i].v, "an existing element changes"); }
    }
    vf_reach("end");
}
// making a key or a value may throw: the map is as before
struct TKey { uint8_t id; explicit TKey(uint8_t i) : id(i) { vf::may_throw(); vf_live_add(this, 3); } TKey(const TKey& o) : id(o.id) { vf::may_throw(); vf_live_add(this, 3); } TKey(TKey&& o) noexcept : id(o.id) { vf_live_add(this, 3); } ~TKey() { vf_check(vf_live_del(this), "key destroyed twice"); id = 0xee; } TKey& operator=(const TKey&) = delete; };
struct TView { uint8_t id; TView(uint8_t i) : id(i) {} explicit operator TKey() const { return TKey(id); } };
struct THash { using is_transparent = void; template <class X> size_t operator()(const X& k) const { return (size_t)vf_concretize(k.id & g_mask); } };
struct TEq { using is_transparent = void; template <class X, class Y> bool operator()(const X& a, const Y& b) const { return a.id == b.id; } };
struct TVal : vf::Tracked<4, true, true> { TVal() {} TVal(uint32_t x) : Tracked(x) {} TVal(const TVal&) = default; TVal(TVal&&) = default; TVal& operator=(TVal&&) = default; };
VF_ENTRY throwing() {
    g_mask = (uint8_t)vf::pick("mask", 2); vf::throw_at() = 0; {
    itlib::transparent_umap<TKey, TVal, THash, TEq> m; struct { uint8_t id; uint32_t v; const TVal* p; } r[8]; size_t n = 0;
    for (size_t i = vf::pick("n0", vf_param("n", 3)); i > 0; --i) { uint8_t id = vf::u8("id"); uint32_t v = vf::u32("v"); auto x = m.try_emplace(TView(id), v); if (x.second) r[n++] = {id, v, &x.first->second}; }
    for (size_t k = 0; k < vf_param("ops", 1); ++k) {
        uint8_t id = vf::u8("id"); uint32_t v = vf::u32("v"); size_t at = 0; while (at < n && r[at].id != id) ++at; bool has = at < n, threw = false; { TVal arg(v); size_t op = vf::pick("op", 6); TVal* got = nullptr; vf::throw_at() = int(vf::pick("throw", 4));
        try { switch (op) {
        case 0: got = &m[TView(id)]; v = 0; break;
        case 1: got = &m.try_emplace(TView(id), v).first->second; break;
        case 2: got = &m.try_emplace(TView(id), std::as_const(arg)).first->second; break;
        case 3: { auto x = m.try_emplace(m.cend(), TView(id), v); got = &x->second; break; }
        case 4: got = &m.try_emplace(TView(id), std::move(arg)).first->second; break;
        default: { TKey q(id); got = &m[q]; v = 0; break; }
        } } catch (vf::Boom&) { threw = true; vf_reach("threw"); }
        vf::throw_at() = 0; if (!threw) { if (!has) r[n++] = {id, v, got}; vf_check(got == r[at].p && got->v == r[at].v, "another element is found"); } }
        vf_check(m.size() == n, "the number of elements differs"); size_t seen = 0; for (auto& e : m) { TKey const& q = e.first; vf_check(vf_live_get(&q) == 3, "a key is not alive"); ++seen; } vf_check(seen == n, "iteration visits another number of elements");
        for (size_t i = 0; i < n; ++i) { auto f = m.find(TView(r[i].id)); vf_check(f != m.end() && &f->second == r[i].p && f->second.v == r[i].v, "an existing element changes"); }
    } } vf_check(vf_live_count(3) == 0 && vf_live_count(4) == 0, "an element is not destroyed"); vf_reach("end");
}
