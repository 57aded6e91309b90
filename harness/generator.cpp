#include "vf.h"
#include <itlib/generator.hpp>
typedef vf::Tracked<1> V; typedef vf::Tracked<2> Local;
struct Only : vf::Tracked<3> { Only(uint32_t x) : Tracked<3>(x) {} Only(Only&& o) noexcept : Tracked<3>(std::move(o)) {} Only& operator=(Only&& o) noexcept { Tracked<3>::operator=(std::move(o)); return *this; } };
enum { MAXN = 4 };
struct Prog { // what the coroutine does and how far it got
    size_t n = 0, thr = ~size_t(0); uint32_t v[MAXN]; size_t steps = 0; bool ended = false, started = false; const void* where[MAXN] = {}; bool gone = false;
    void choose(size_t maxn) { n = vf::pick("n", maxn + 1); if (vf::flag("throws")) thr = vf::pick("thr", n + 1); for (size_t i = 0; i < n; ++i) v[i] = vf::u32("v"); }
};
struct Gone { Prog& p; Local l; Gone(Prog& q) : p(q), l(1u) {} ~Gone() { vf_check(!p.gone, "the coroutine's locals are destroyed twice"); p.gone = true; } };
template <class T> itlib::generator<T> coro(Prog& p, Local arg) {
    p.started = true; Gone g(p); vf_check(arg.v == 5, "a coroutine parameter is not the argument");
    for (size_t i = 0; i < p.n; ++i) {
        if (i == p.thr) throw vf::Boom{int(i)};
        ++p.steps;
        if constexpr (std::is_same<T, V>::value) { if (i & 1) { V l(p.v[i]); p.where[i] = &l; co_yield l; vf_check(l.v == p.v[i], "yielding an lvalue modified it"); } else co_yield V(p.v[i]); }
        else if constexpr (std::is_same<T, uint32_t>::value) co_yield p.v[i];
        else if constexpr (std::is_same<T, Only>::value) co_yield Only(p.v[i]);
        else { typename std::decay<T>::type l(p.v[i]); p.where[i] = &l; co_yield l; if constexpr (!std::is_const<typename std::remove_reference<T>::type>::value) vf_check(l.v == p.v[i] + 1, "a change made through a yielded reference is not seen by the coroutine"); }
    }
    if (p.n == p.thr) throw vf::Boom{int(p.n)};
    p.ended = true;
}
template <class T> uint32_t val(const T& t) { if constexpr (std::is_same<T, uint32_t>::value) return t; else return t.v; }
template <class T> struct S {
    typedef itlib::generator<T> G; enum { REF = std::is_reference<T>::value };
    static void got(Prog& p, size_t i, const typename std::decay<T>::type& x) { vf_check(i < p.n && i != p.thr, "a value is given which was not yielded"); vf_check(val(x) == p.v[i], "the values given are not the ones yielded, in order"); if (REF) { vf_check(&x == p.where[i], "a yielded reference does not designate the coroutine's object"); touch(const_cast<typename std::decay<T>::type&>(x)); } }
    static void touch(typename std::decay<T>::type& x) { if constexpr (REF) { if constexpr (!std::is_const<typename std::remove_reference<T>::type>::value) x.v++; } }
    static void far(const Prog& p, size_t i) { vf_check(p.steps == i && p.started == (i > 0 || p.ended || p.gone), "the coroutine ran further than the consumer asked"); }
    // one next(); i: values so far.  returns false at the end
    static bool next(G& g, Prog& p, size_t& i, bool& over) {
        bool was = over; bool d = g.done(); vf_check(d == over, "done() is not whether the coroutine has ended");
        try {
            auto o = g.next();
            if (o) { vf_check(!was, "a value is given after the end"); got(p, i, *o); vf_check(o.has_value(), "has_value of a given value is false"); ++i; vf_check(p.steps == i, "the coroutine ran further than the consumer asked"); return true; }
            vf_check(was || (i == p.n && p.thr > p.n), "the end is reported before all values were given"); vf_check(was || p.ended, "the end is reported before the coroutine ended"); over = true; vf_check(g.done(), "done() is not whether the coroutine has ended"); return false;
        } catch (vf::Boom& b) { vf_check(!was && i == p.thr && b.id == int(p.thr), "an exception leaves through another call than the one which reached it"); over = true; vf_check(g.done(), "done() is not whether the coroutine has ended"); return false; }
    }
    static void loop(G& g, Prog& p, size_t& i, bool& over, size_t stop) {
        try { for (auto&& x : g) { got(p, i, x); ++i; vf_check(p.steps == i, "the coroutine ran further than the consumer asked"); if (i == stop) return; } vf_check(i == p.n && p.thr > p.n && p.ended, "iteration ends before all values were given"); }
        catch (vf::Boom& b) { vf_check(i == p.thr && b.id == int(p.thr), "an exception leaves through another call than the one which reached it"); }
        over = true; vf_check(g.done(), "done() is not whether the coroutine has ended");
    }
    static void manual(G& g, Prog& p, size_t& i, bool& over, size_t stop) { // iterators by hand: comparison in either order, copies, repeated dereference
        typename G::pseudo_iterator it;
        try {
            it = g.begin(); auto e = g.end();
            while (true) {
                bool at = it == e; vf_check((e == it) == at && (it != e) == !at && (e != it) == !at, "the comparisons of an iterator with the end disagree"); vf_check(at == g.done(), "an iterator is at the end and the generator is not done");
                if (at) break;
                auto cp = it; vf_check(&*cp == &*it && &*it == &*it, "dereferencing again gives another object"); got(p, i, *it); ++i; vf_check(p.steps == i, "the coroutine ran further than the consumer asked"); if (i == stop) return;
                auto& r = ++it; vf_check(&r == &it, "increment does not return the iterator");
            }
            vf_check(i == p.n && p.thr > p.n && p.ended, "iteration ends before all values were given");
        } catch (vf::Boom& b) { vf_check(i == p.thr && b.id == int(p.thr), "an exception leaves through another call than the one which reached it"); }
        over = true; vf_check(g.done(), "done() is not whether the coroutine has ended");
    }
    static void run() {
        size_t maxn = vf_param("n", 3), ops = vf_param("ops", 3);
        Prog p, q; p.choose(maxn);
        {
            G g = coro<T>(p, Local(5u)); size_t i = 0; bool over = false, have = true; far(p, 0); vf_check(bool(g) && !g.done(), "a new generator is not ready");
            for (size_t k = 0; k < ops && have; ++k) {
                switch (vf::pick("op", 8)) {
                case 7: { vf_assume(!over); manual(g, p, i, over, vf::flag("early") ? i + 1 : ~size_t(0)); break; }
                case 0: next(g, p, i, over); break;
                case 1: { vf_assume(!over); loop(g, p, i, over, vf::flag("early") ? i + 1 : ~size_t(0)); break; }
                case 2: { G h(std::move(g)); vf_check(!g && bool(h), "a moved from generator is not empty"); next(h, p, i, over); g = std::move(h); vf_check(!h && bool(g), "a moved from generator is not empty"); break; }
                case 3: { q = Prog(); q.n = 2; q.v[0] = q.v[1] = 7; G h = coro<T>(q, Local(5u)); size_t j = 0; bool ov = false; if (vf::flag("ran")) next(h, q, j, ov); bool st = q.started; G& r = (h = std::move(g)); vf_check(&r == &h && !g, "a moved from generator is not empty"); vf_check(q.gone == st, "assignment does not destroy the frame of its target"); g = std::move(h); break; }
                case 4: { bool st = p.started; g.reset(); vf_check(!g, "a generator which was reset is not empty"); vf_check(p.gone == st, "reset does not destroy the frame"); g.reset(); have = false; break; }
                case 5: { G& r = g; g = std::move(r); vf_check(bool(g) && !p.gone | over, "self assignment changes a generator"); break; }
                case 6: { while (next(g, p, i, over)) {} break; }
                }
                if (have) vf_check(p.steps == i && p.gone == over, "the coroutine's locals live too long or too short");
            }
            vf_observe(i); vf_observe(over);
        }
        vf_check(p.gone == p.started, "the frame is not destroyed with its generator");
        vf_check(vf_live_count(0) == 0, "an object of the coroutine is alive after its generator is gone");
        vf_reach("end");
    }
};
VF_ENTRY gen_value() { S<V>::run(); }
VF_ENTRY gen_plain() { S<uint32_t>::run(); }
VF_ENTRY gen_only() { S<Only>::run(); }
VF_ENTRY gen_ref() { S<V&>::run(); }
VF_ENTRY gen_cref() { S<const V&>::run(); }
// a generator which consumes another one
static itlib::generator<uint32_t> outer(Prog& p, Prog& in) { p.started = true; Gone g(p); auto h = coro<V>(in, Local(5u)); for (V& v : h) { ++p.steps; co_yield v.v; } while (auto v = h.next()) co_yield v->v; p.ended = true; }
VF_ENTRY gen_nested() {
    Prog p, in; in.choose(vf_param("n", 3)); size_t stop = vf::pick("stop", 5), i = 0;
    { auto g = outer(p, in); bool threw = false; try { while (i < stop) { auto v = g.next(); if (!v) break; vf_check(i < in.n && *v == in.v[i], "the values given are not the ones yielded, in order"); ++i; vf_check(in.steps == i, "the coroutine ran further than the consumer asked"); } } catch (vf::Boom& b) { threw = true; vf_check(i == in.thr && b.id == int(i), "an exception leaves through another call than the one which reached it"); }
      if (i < stop) vf_check(threw == (in.thr <= in.n) && (threw || i == in.n), "the end is reported before all values were given"); vf_observe(i); }
    vf_check(p.gone == p.started && in.gone == in.started && vf_live_count(0) == 0, "an object of the coroutine is alive after its generator is gone"); vf_reach("end");
}
