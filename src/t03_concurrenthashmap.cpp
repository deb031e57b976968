// T03: a ConcurrentHashMap behaves as if its methods ran one at a time, under every schedule.
// Built with NATIVE_MODEL_CHECKING, so that a table has four buckets of four and as many locks to begin with: elements are
// moved about and the table is doubled within a few calls.
#include "mcsched.hpp"
#include "jn.hpp"
#include <algorithm>
#include <map>
#include "library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"
using namespace jav;
using Java::Util::Concurrent::ConcurrentHashMap;
typedef std::map<int, int> Model;
static std::string text(const Model &m) { std::string s = "{"; for (auto &e : m) s += (s.size() > 1 ? " " : "") + std::to_string(e.first) + "=" + std::to_string(e.second); return s + "}"; }
static std::string yes(bool b) { return b ? "true" : "false"; }
// Values: int or String with the same digits.
template<class V> struct Val;
template<> struct Val<int> { static int to(int v) { return v; } static int from(int v) { return v; } };
template<> struct Val<String> {
    static String to(int v) { return v ? J(std::string(20, 'v') + std::to_string(v)) : String(); }
    static int from(const String &s) { sched::Quiet q; std::string t = s.toSTLString(); return t.empty() ? 0 : t.size() > 20 ? atoi(t.c_str() + 20) : -1; }
};
template<class V> struct Ops {
    typedef ConcurrentHashMap<int, V> Map; typedef Val<V> X;
    struct Op { const char *name; int delta; std::function<std::string(Map &)> f; std::function<std::string(Model &)> m; };  // delta: 0 leaves the size, 1 may add, -1 may remove, -9 may remove all, 2 asks the size
    static std::string dump(Map &h, bool stop = false) { Model out; int n = 0; h.forEach([&](int k, V v) { sched::Quiet q; n++; out[k] = X::from(v); return !stop || n < 1; }); return stop ? std::to_string(n) : text(out) + (n == (int)out.size() ? "" : " with keys more than once"); }
    // operations on the key k, with a new value v and a value o that it may have
    static std::vector<Op> all(int k, int v, int o) {
        auto R = [](int x) { return std::to_string(x); };
        return {
            {"put", 1, [=](Map &h) { h.put(k, X::to(v)); return std::string(); }, [=](Model &m) { m[k] = v; return std::string(); }},
            {"remove", -1, [=](Map &h) { return R(X::from(h.remove(k))); }, [=](Model &m) { int r = m.count(k) ? m[k] : 0; m.erase(k); return R(r); }},
            {"putIfAbsent", 1, [=](Map &h) { return R(X::from(h.putIfAbsent(k, X::to(v)))); }, [=](Model &m) { if (m.count(k)) return R(m[k]); m[k] = v; return R(0); }},
            {"get", 0, [=](Map &h) { return R(X::from(h.get(k))); }, [=](Model &m) { return R(m.count(k) ? m[k] : 0); }},
            {"replace", 0, [=](Map &h) { return R(X::from(h.replace(k, X::to(v)))); }, [=](Model &m) { if (!m.count(k)) return R(0); int r = m[k]; m[k] = v; return R(r); }},
            {"forEach", 0, [](Map &h) { return dump(h); }, [](Model &m) { return text(m); }},
            {"clear", -9, [](Map &h) { h.clear(); return std::string(); }, [](Model &m) { m.clear(); return std::string(); }},
            {"size", 2, [](Map &h) { return std::to_string(h.size()); }, [](Model &) { return std::string(); }},
            {"remove if", -1, [=](Map &h) { return yes(h.remove(k, X::to(o))); }, [=](Model &m) { bool r = m.count(k) && m[k] == o; if (r) m.erase(k); return yes(r); }},
            {"replace if", 0, [=](Map &h) { return yes(h.replace(k, X::to(o), X::to(v))); }, [=](Model &m) { bool r = m.count(k) && m[k] == o; if (r) m[k] = v; return yes(r); }},
            {"containsKey", 0, [=](Map &h) { return yes(h.containsKey(k)); }, [=](Model &m) { return yes(m.count(k)); }},
            {"getOrDefault", 0, [=](Map &h) { return R(X::from(h.getOrDefault(k, X::to(77)))); }, [=](Model &m) { return R(m.count(k) ? m[k] : 77); }},
            {"containsValue", 0, [=](Map &h) { return yes(h.containsValue(X::to(o))); }, [=](Model &m) { bool r = false; for (auto &e : m) r = r || e.second == o; return yes(r); }},
            {"clone", 0, [](Map &h) { Map *d = new Map(h.clone()); auto r = dump(*d); delete d; return r; }, [](Model &m) { return text(m); }},
            {"copy", 0, [](Map &h) { Map *d = new Map(h); auto r = dump(*d); delete d; return r; }, [](Model &m) { return text(m); }},
            {"equals {k=o}", 0, [=](Map &h) { Map *d = new Map; { sched::Quiet q; d->put(k, X::to(o)); } bool r = h.equals(*d); delete d; return yes(r); }, [=](Model &m) { return yes(m == Model{{k, o}}); }},
            {"{k=o} equals", 0, [=](Map &h) { Map *d = new Map; { sched::Quiet q; d->put(k, X::to(o)); } bool r = d->equals(h); delete d; return yes(r); }, [=](Model &m) { return yes(m == Model{{k, o}}); }},
            {"= {k=v}", -9, [=](Map &h) { Map *d = new Map; { sched::Quiet q; d->put(k, X::to(v)); } h = *d; delete d; return std::string(); }, [=](Model &m) { m = Model{{k, v}}; return std::string(); }},
            {"find", 0, [=](Map &h) { return yes(h.find(k)); }, [=](Model &m) { return yes(m.count(k)); }},
            {"isEmpty", 3, [](Map &h) { return yes(h.isEmpty()); }, [](Model &) { return std::string(); }},
            {"reinitialize", -9, [](Map &h) { h.reinitialize(); return std::string(); }, [](Model &m) { m.clear(); return std::string(); }},
            {"forEach (first)", 0, [](Map &h) { return dump(h, true); }, [](Model &m) { return std::to_string(m.empty() ? 0 : 1); }},
        };
    }
    typedef std::vector<std::vector<Op>> Plan;
    static std::string describe(const Model &start, const Plan &plan) {
        std::string s = "map " + text(start) + ";"; for (auto &t : plan) { s += " thread:"; for (auto &o : t) s += " " + std::string(o.name) + ","; s.back() = ';'; } return s;
    }
    static void go(mc::Ctx &c, int bound, const Model &start, const Plan &plan, int calmFrom = 99) {
        std::vector<const Op *> op; std::vector<std::string> got; std::vector<sched::Span> span;
        for (auto &t : plan) for (auto &o : t) { op.push_back(&o); got.push_back(""); span.push_back({}); }
        std::string end, sizeEnd; int low = (int)start.size(), high = low; for (auto *o : op) { if (o->delta == -1) low--; if (o->delta == -9) { low = 0; high++; } if (o->delta == 1) high++; } low = std::max(low, 0);
        sched::run(c, bound, [&] {
            Map *h = new Map; for (auto &e : start) h->put(e.first, X::to(e.second)); int at = 0;
            for (auto &t : plan) {
                int first = at, calm = &t - &plan[0] >= calmFrom; at += (int)t.size(); auto *pt = &t;
                sched::spawn([&, h, first, pt, calm] { sched::calm(calm); for (size_t i = 0; i < pt->size(); i++) { if (i) { if (calm) sched::pause(); else sched::point(); } auto &p = span[first + i]; p.inv = sched::tick(); std::string r = (*pt)[i].f(*h); p.res = sched::tick(); sched::Quiet q; got[first + i] = r; } });
            }
            sched::joinAll(); end = dump(*h); Model last; h->forEach([&](int k, V v) { sched::Quiet q; last[k] = X::from(v); return true; });
            for (auto &e : last) c.checkf(X::from(h->get(e.first)) == e.second && h->containsKey(e.first), [&] { return "at the end the key " + std::to_string(e.first) + " is in the map, but it is not found"; });
            sizeEnd = std::to_string(h->size()); delete h;
        });
        c.outcome(std::hash<std::string>()(end));
        for (size_t i = 0; i < op.size(); i++) {
            if (op[i]->delta == 2) { long n = atol(got[i].c_str()); c.checkf(n >= low && n <= high, [&] { return "size() = " + got[i] + " although the map has between " + std::to_string(low) + " and " + std::to_string(high) + " elements all the time"; }); }
            if (op[i]->delta == 3) c.check(!(got[i] == "true" && low > 0) && !(got[i] == "false" && high == 0), "isEmpty() is wrong at all times");
        }
        struct M { Model m; int n; bool operator<(const M &o) const { return std::tie(n, m) < std::tie(o.n, o.m); } }; size_t finalSize = 0;
        bool ok = sched::linearizable(span, M{start, 0}, [&](M &s, int i) { std::string r = op[i]->m(s.m); if (op[i]->delta < 2 && r != got[i]) return false; s.n++; if (s.n < (int)op.size()) return true; finalSize = s.m.size(); return text(s.m) == end; });
        c.checkf(ok, [&] { std::string s = "no order of the calls explains the results:"; for (size_t i = 0; i < op.size(); i++) s += " " + std::string(op[i]->name) + " -> " + got[i] + ";"; return s + " at the end " + end; });
        c.eq(sizeEnd, std::to_string(finalSize), "size() when all is done");
    }
};
template<class V> static typename Ops<V>::Op named(typename Ops<V>::Op o, const char *n) { o.name = n; return o; }
static Model filled(int n) { Model m; for (int i = 0; i < n; i++) m[i + 100] = i + 1; return m; }
typedef Ops<int> I; typedef Ops<String> T;

static void pairsOf(mc::Ctx &c, int depth, int calls) {
    Model start; int n = c.choose(3); if (n > 0) start[1] = 10; if (n > 1) start[2] = 20;
    static auto A = I::all(1, 11, 10), B = I::all(1, 12, 11), C = I::all(2, 10, 20); int k = std::min((int)A.size(), calls), i = c.choose(k), j = c.choose(k), other = c.flip();
    auto calm = [](const I::Op &o) { return o.delta == 0 && strncmp(o.name, "replace", 7); };
    if (calm(A[i]) && calm(B[j])) throw mc::Skip();
    I::Plan p{{A[i]}, {other ? C[j] : B[j]}}; c.note([&] { return I::describe(start, p) + (other ? " the second on another key" : ""); });
    I::go(c, depth, start, p);
}
SCENARIO(pairs, "every pair of 22 calls on the same key, or of two keys, in two threads", 0, 1, 2) { pairsOf(c, depth, 22); }
SCENARIO(core_pairs, "the same with nine calls: put, remove, putIfAbsent, get, replace, forEach, clear, size, remove if", 2, 2, 3) { pairsOf(c, depth, 9); }
SCENARIO(triples, "one call against two of another thread", 0, 1, 2) {
    Model start; if (c.flip()) start[1] = 10;
    static auto A = I::all(1, 11, 10), B = I::all(1, 12, 11); int k = c.thorough ? 18 : 10, i = c.choose(k), j = c.choose(k), l = c.choose(k);
    I::Plan p{{A[i]}, {B[j], B[l]}}; c.note([&] { return I::describe(start, p); });
    I::go(c, depth, start, p);
}
SCENARIO(three, "three threads with one call each", 0, 1, 2) {
    Model start; if (c.flip()) start[1] = 10;
    static auto A = I::all(1, 11, 10), B = I::all(1, 12, 11), D = I::all(1, 10, 12); int k = c.thorough ? 10 : 7, i = c.choose(k), j = c.choose(k), l = c.choose(k);
    I::Plan p{{A[i]}, {B[j]}, {D[l]}}; c.note([&] { return I::describe(start, p); });
    I::go(c, depth, start, p);
}
template<class O> static void crowded(mc::Ctx &c, int depth, int from, int to) {
    int n = c.range(from, to); Model start = filled(n);
    static auto A = O::all(1, 11, 10), B = O::all(1, 12, 11), C = O::all(2, 22, 20), D = O::all(103, 33, 4), E = O::all(104, 44, 5);
    typename O::Op X[] = {A[0], A[2], D[1], D[0]}, Y[] = {B[0], C[0], D[1], D[3], D[0], E[1], A[5], A[6], A[7], A[13], B[2], D[4]};
    int i = c.choose(4), j = c.choose(12); typename O::Plan p{{X[i]}, {Y[j]}};
    c.note([&] { return O::describe(start, p); });
    O::go(c, depth, start, p);
}
SCENARIO(crowded_int, "a table that is full, has just been doubled or is about to be", 0, 1, 2) { crowded<I>(c, depth, 13, 18); }
SCENARIO(crowded_text, "the same with String values, which the table moves another way", 0, 1, 2) { crowded<T>(c, depth, 14, 17); }
SCENARIO(two_puts, "two threads put two new keys each into a full table", 0, 1, 2) {
    int n = c.range(13, 16); Model start = filled(n); int a = c.range(1, 4), b = c.range(1, 4);
    I::Plan p{{I::all(a, 11, 0)[0], I::all(a + 10, 12, 0)[0]}, {I::all(b, 21, 0)[0], I::all(b + 20, 22, 0)[2]}};
    c.note([&] { return I::describe(start, p) + " keys " + std::to_string(a) + ", " + std::to_string(a + 10) + " and " + std::to_string(b) + ", " + std::to_string(b + 20); });
    I::go(c, depth, start, p);
}
SCENARIO(replaced, "a new key is put into a full table while a key that may be moved is removed and another one takes its place", 0, 1, 2) {
    int n = c.thorough ? c.range(12, 16) : c.range(14, 15); Model start = filled(n); int a = c.thorough ? c.pick({4, 9, 17, 1, 3, 2}) : c.pick({4, 9, 17}), k = 100 + c.choose(n), b = c.thorough ? c.pick({12, 31, 34, 15, 38, 19, 18, 14}) : c.pick({12, 31, 34});  // 4, 9, 17: both buckets are full
    I::Plan p{{I::all(a, 11, 0)[0]}, {I::all(k, 0, 0)[1], I::all(b, 22, 0)[0]}};
    c.note([&] { return I::describe(start, p) + " keys " + std::to_string(a) + " and " + std::to_string(k) + ", " + std::to_string(b); });
    I::go(c, depth, start, p);
}
SCENARIO(taken, "a new key is put into full buckets and is interrupted twice: a key there is removed, and another one takes its place", 0, 2, 3) {
    int n = c.thorough ? c.pick({15, 13, 14, 12}) : 15; Model start = filled(n); int a = c.thorough ? c.pick({4, 17, 9}) : 4, k = c.thorough ? 100 + c.choose(n) : c.pick({107, 105, 110, 104}), b = c.thorough ? c.pick({31, 12, 34, 38}) : c.pick({31, 12});
    I::Plan p{{I::all(a, 11, 0)[0]}, {I::all(k, 0, 0)[1], I::all(b, 22, 0)[0]}};
    c.note([&] { return I::describe(start, p) + " keys " + std::to_string(a) + " and " + std::to_string(k) + ", " + std::to_string(b); });
    I::go(c, depth, start, p, 1);
}
SCENARIO(interrupted, "a call on a full table is interrupted by two calls of another thread, at two places", 0, 1, 2) {
    int n = c.thorough ? c.range(13, 17) : c.pick({15, 16}); Model start = filled(n);
    static auto A = I::all(4, 11, 10), B = I::all(4, 12, 11), C = I::all(17, 22, 20), D = I::all(107, 33, 8), E = I::all(112, 44, 13);
    I::Op X[] = {A[0], A[5], D[1], A[2]}, Y[] = {C[0], D[1], E[0], B[0], A[6], E[1]}, Z[] = {C[2], D[0], E[1], B[1], A[5], A[13]};
    int i = c.choose(c.thorough ? 4 : 3), j = c.choose(6), k = c.choose(6); I::Plan p{{X[i]}, {Y[j], Z[k]}};
    c.note([&] { return I::describe(start, p); });
    I::go(c, depth, start, p, 1);
}
SCENARIO(sizes, "size while elements that were moved about are removed", 0, 1, 3) {
    int n = c.range(15, 17), rounds = c.pick({1, 8}), from = c.choose(4), keep = c.choose(4), what = c.choose(3);
    c.note([&] { return std::to_string(rounds) + " times " + std::to_string(n) + " keys put, all but " + std::to_string(keep) + " removed again beginning with the " + std::to_string(from * 4) + "th; thread: " + (what == 0 ? "clear" : what == 1 ? "remove the rest" : "put a new key and remove it") + "; thread: size"; });
    sched::run(c, depth, [&] {
        auto *h = new ConcurrentHashMap<int, int>; std::vector<int> rest;
        for (int r = 0; r < rounds; r++) { for (int i = 0; i < n; i++) h->put(r * 20 + i, i); if (r + 1 < rounds) for (int i = 0; i < n; i++) h->remove(r * 20 + i); }
        for (int i = 0; i < n; i++) { int k = rounds * 20 - 20 + (i + from * 4) % n; if (i + keep < n) h->remove(k); else rest.push_back(k); }
        c.eq((int)h->size(), keep, "size() before"); long got = 0;
        sched::spawn([&, h] { if (what == 0) h->clear(); else if (what == 1) { for (int k : rest) h->remove(k); } else { h->put(-1, 1); h->remove(-1); } });
        sched::spawn([&, h] { got = h->size(); });
        sched::joinAll(); c.checkf(got >= (what == 2 ? keep - 1 : 0) && got <= keep + 1, [&] { return "size() = " + std::to_string(got) + " while the map had " + std::to_string(keep) + " elements at most"; });
        c.eq((int)h->size(), what == 2 ? keep : 0, "size() after"); delete h;
    });
}
SCENARIO(counting, "three threads add to one value with replace(key, old, new)", 0, 1, 2) {
    int n = c.range(2, 3); c.note([&] { return std::to_string(n) + " threads"; });
    sched::run(c, depth, [&] {
        auto *h = new ConcurrentHashMap<int, int>; h->put(5, 0);
        for (int t = 0; t < n; t++) sched::spawn([h] { for (;;) { int v = h->get(5); if (h->replace(5, v, v + 1)) break; } });
        sched::joinAll(); c.eq(h->get(5), n, "sum"); delete h;
    });
}
SCENARIO(actions, "the action of forEach uses the map", 0, 1, 2) {
    int what = c.choose(6), other = c.choose(4), n = c.pick({1, 3, 16});
    static const char *const WHAT[] = {"removes the key", "puts another key", "asks for the size", "clears", "calls forEach", "replaces the value"}, *const OTHER[] = {"puts", "removes", "calls forEach", "clears"};
    c.note([&] { return std::to_string(n) + " elements, the action " + WHAT[what] + ", another thread " + OTHER[other]; });
    sched::run(c, depth, [&] {
        typedef ConcurrentHashMap<int, int> Map; auto *h = new Map; Model start = filled(n); for (auto &e : start) h->put(e.first, e.second); int calls = 0, inner = 0; std::set<int> keys;
        sched::spawn([&, h] { h->forEach([&](int k, int v) { { sched::Quiet q; calls++; c.check(keys.insert(k).second, "a key is visited twice"); c.check(v == k - 99 || (k == 1 && v == 7), "a value that was never there"); }
            if (what == 0) h->remove(k); else if (what == 1) h->put(k + 1000, v); else if (what == 2) h->size(); else if (what == 3) h->clear(); else if (what == 4) h->forEach([&](int, int) { inner++; return false; }); else h->replace(k, v, v + 500); return calls < 3; }); });
        sched::spawn([&, h] { if (other == 0) h->put(1, 7); else if (other == 1) h->remove(100); else if (other == 2) h->forEach([](int, int) { return true; }); else h->clear(); });
        sched::joinAll();
        int least = other == 3 ? 0 : other == 1 ? n - 1 : n; c.check(calls >= std::min(3, least) && calls <= std::min(3, n + (other == 0)), "forEach called the action a wrong number of times");
        if (what == 0 && other > 1 && other != 3) c.eq((int)h->size(), n - std::min(n, 3), "size");
        delete h;
    });
}
SCENARIO(publication, "what was written before put is seen by who gets the value", 0, 2, 4) {
    int how = c.choose(4);
    static const char *const HOW[] = {"get", "forEach", "remove", "containsKey"}; c.note([&] { return HOW[how]; });
    sched::run(c, depth, [&] {
        auto *h = new ConcurrentHashMap<int, int *>; int *data = new int(0);
        sched::spawn([=] { *data = 42; h->put(1, data); });
        sched::spawn([=, &c] { int *p = nullptr; if (how == 0) p = h->get(1); else if (how == 1) h->forEach([&](int, int *q) { p = q; return true; }); else if (how == 2) p = h->remove(1); else if (h->containsKey(1)) p = data; if (p) c.eq(*p, 42, "what it points to"); });
        sched::joinAll(); delete data; delete h;
    });
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
