// C09: ConcurrentHashMap, used by one thread, against std::map.  The table is built with NATIVE_MODEL_CHECKING, so that it begins with
// four buckets and locks instead of 65536 (which makes every execution 1000 times faster); c09_large.cpp has the original constants.
#define NATIVE_MODEL_CHECKING
#include "col_common.hpp"
#include <map>
#include <memory>
#include "library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"
using Java::Util::Concurrent::ConcurrentHashMap;
typedef std::map<int, int> Model;
template<class K, class V> struct T {
    typedef ConcurrentHashMap<K, V> H; typedef El<K> X; typedef El<V> Y;
    static uint64_t hash(const Model &m) { uint64_t h = m.size(); for (auto &e : m) h = mc::mix(mc::mix(h, e.first + 1), e.second + 1); return h; }
    static std::string show(const Model &m) { std::string s = "{"; for (auto &e : m) s += (s.size() > 1 ? ", " : "") + mc::show(X::text(e.first)) + ": " + mc::show(Y::text(e.second)); return s + "}"; }
    static void view(H &h, const Model &m, const char *who) {
        const H &k = h; auto bad = [&](const std::string &what) { throw mc::Violation{std::string(who) + ": " + what + " differs from " + show(m)}; };
        if (k.size() != (long)m.size()) bad("size() " + std::to_string((long)k.size())); if ((bool)k.isEmpty() != m.empty()) bad("isEmpty()");
        for (int i = 0; i < 4; i++) {
            auto it = m.find(i); bool has = it != m.end(); const K key = X::make(i);
            if ((bool)k.containsKey(key) != has) bad("containsKey()"); if ((bool)k.find(key) != has) bad("find()"); if (Y::id(k.get(key)) != (has ? it->second : Y::blank)) bad("get()");
            for (int d = 0; d < 2; d++) if (Y::id(k.getOrDefault(key, Y::make(d))) != (has ? it->second : d)) bad("getOrDefault()");
            bool v = false; for (auto &e : m) v |= e.second == i; if ((bool)h.containsValue(Y::make(i)) != v) bad("containsValue()");
        }
        if (k.size() != (long)m.size()) bad("size() after lookups of missing keys");
        Model s; int n = 0; for (auto const &e : h) { s[X::id(e.first)] = Y::id(e.second); n++; } if (s != m || n != (int)m.size()) bad("iteration"); s.clear(); n = 0;
        h.forEach([&](K a, V b) { s[X::id(a)] = Y::id(b); n++; return true; }); if (s != m || n != (int)m.size()) bad("forEach()");
        n = 0; h.forEach([&](K, V) { n++; return false; }); if (n != (m.empty() ? 0 : 1)) bad("forEach() stopped by its action");
    }
    static void run(mc::Ctx &c, int depth, bool wide) {
        std::unique_ptr<H> x(new H()), y(new H()); Model m, q; int n = c.pick({0, 4});
        for (int i = 0; i < n; i++) { x->put(X::make(i), Y::make(3 - i)); m[i] = 3 - i; } c.note([&] { return "start with " + show(m); });
        for (int step = 0; step < depth; step++) {
            int op = c.choose(wide ? 15 : 6); int ki = 0, vi = 0; auto key = [&] { ki = c.choose(3); return X::make(ki); }; auto val = [&] { vi = c.choose(wide ? 3 : 2); return Y::make(vi); };
            auto note = [&](const char *w, bool v) { c.note([&] { return std::string(w) + " " + mc::show(X::text(ki)) + (v ? " " + mc::show(Y::text(vi)) : ""); }); };
            auto old = [&](int got, const char *what) { auto it = m.find(ki); int want = it == m.end() ? Y::blank : it->second; c.eq(got, want, what); return it != m.end(); };
            switch (op) {
                case 0: { K k = key(); V v = val(); note("put", true); x->put(k, v); m[ki] = vi; } break;
                case 1: { K k = key(); note("remove", false); old(Y::id(x->remove(k)), "remove(key)"); m.erase(ki); } break;
                case 2: { K k = key(); V v = val(); note("putIfAbsent", true); if (!old(Y::id(x->putIfAbsent(k, v)), "putIfAbsent()")) m[ki] = vi; } break;
                case 3: { K k = key(); V v = val(); note("replace", true); if (old(Y::id(x->replace(k, v)), "replace()")) m[ki] = vi; } break;
                case 4: c.note([] { return "clear"; }); x->clear(); m.clear(); break;
                case 5: c.note([] { return "y = copy of x"; }); y.reset(new H(*x)); q = m; break;
                case 6: { K k = key(); V v = val(); note("remove if", true); bool ok = m.count(ki) && m[ki] == vi; c.eq((bool)x->remove(k, v), ok, "remove(key, value)"); if (ok) m.erase(ki); } break;
                case 7: { K k = key(); V v = val(); int wi = c.choose(3); note("replace if", true); bool ok = m.count(ki) && m[ki] == vi; c.eq((bool)x->replace(k, v, Y::make(wi)), ok, "replace(key, old, new)"); if (ok) m[ki] = wi; } break;
                case 8: c.note([] { return "y = x.clone()"; }); y.reset(new H(x->clone())); q = m; break;
                case 9: c.note([] { return "x = y"; }); *x = *y; m = q; break;
                case 10: c.note([] { return "swap x and y"; }); std::swap(x, y); std::swap(m, q); break;
                case 11: { c.note([] { return "x = x"; }); H &r = *x; *x = r; } break;
                case 12: c.note([] { return "reinitialize"; }); x->reinitialize(); m.clear(); break;
                case 13: { c.note([] { return "remove every key from within forEach"; }); x->forEach([&](K k, V) { x->remove(k); return true; }); m.clear(); } break;
                default: { c.note([] { return "put and replace every value by the next from within forEach"; }); x->forEach([&](K k, V v) { x->replace(k, Y::make((Y::id(v) + 1) % 3)); return true; }); for (auto &e : m) e.second = (e.second + 1) % 3; } break;
            }
            if (step == depth - 1) { view(*x, m, "x"); if (wide) view(*y, q, "y"); c.eq((bool)x->equals(*y), m == q, "equals()"); c.eq((bool)y->equals(*x), m == q, "equals()"); c.eq((bool)x->equals(*x), true, "equals(itself)"); } else c.eq((long)x->size(), (long)m.size(), "size()");
            c.state(mc::mix(hash(m), hash(q)));
        }
    }
};
SCENARIO(stringString, "String to String: all histories of 15 kinds of operations over two maps", 1, 2, 3) { T<String, String>::run(c, depth, true); }
SCENARIO(intInt, "int to int: all histories of 15 kinds of operations over two maps", 1, 2, 3) { T<int, int>::run(c, depth, true); }
SCENARIO(integerString, "Integer to String: all histories of 15 kinds of operations over two maps", 1, 2, 3) { T<Integer, String>::run(c, depth, true); }
SCENARIO(stringInteger, "String to Integer: all histories of 15 kinds of operations over two maps", 1, 2, 3) { T<String, Integer>::run(c, depth, true); }
SCENARIO(deepStrings, "String to String: longer histories of put, remove, putIfAbsent, replace, clear, copy", 3, 3, 4) { T<String, String>::run(c, depth, false); }
SCENARIO(deepInts, "Integer to int: longer histories of put, remove, putIfAbsent, replace, clear, copy", 3, 3, 4) { T<Integer, int>::run(c, depth, false); }
SCENARIO(equality, "equals of all pairs of maps over 3 keys and 3 values, built in opposite orders", 1, 1, 1) {
    int a = c.choose(64), b = c.choose(64); ConcurrentHashMap<String, Integer> x, y; Model m, q; int ia = a, ib = b;
    for (int k = 0; k < 3; k++, ia /= 4, ib /= 4) { if (ia % 4) { x.put(El<String>::make(k), El<Integer>::make(ia % 4 - 1)); m[k] = ia % 4; } if (ib % 4) { y.put(El<String>::make(2 - k), El<Integer>::make(ib % 4 - 1)); q[2 - k] = ib % 4; } }
    c.note([&] { return "x " + T<String, Integer>::show(m) + ", y " + T<String, Integer>::show(q); }); c.state(mc::mix(a, b)); c.eq((bool)x.equals(y), m == q, "equals()"); c.eq((bool)y.equals(x), m == q, "equals()");
}
// The table is moved about and doubled: many keys, of many patterns.
template<class K> struct Many {
    std::function<K(int)> key; ConcurrentHashMap<K, String> h; std::map<int, std::string> m;
    void put(mc::Ctx &c, int i, const std::string &v, int how) {
        if (how == 0) h.put(key(i), String(v));
        else if (how == 1) { std::string o = S(h.putIfAbsent(key(i), String(v))); c.eq(o, m.count(i) ? m[i] : "", "putIfAbsent()"); if (m.count(i)) return; }
        else { std::string o = S(h.replace(key(i), String(v))); c.eq(o, m.count(i) ? m[i] : "", "replace()"); if (!m.count(i)) return; }
        m[i] = v;
    }
    void look(mc::Ctx &c, int n, ConcurrentHashMap<K, String> &h) {
        c.eq((long)h.size(), (long)m.size(), "size()");
        for (int i = 0; i < n; i++) { K k = key(i); bool has = m.count(i) > 0; if (S(h.get(k)) != (has ? m[i] : "") || (bool)h.containsKey(k) != has) throw mc::Violation{"get() or containsKey() of key number " + std::to_string(i) + " is wrong"}; }
        std::multiset<std::string> a, b; for (auto &e : m) a.insert(e.second); for (auto const &e : h) b.insert(S(e.second)); c.check(a == b, "iteration gives other values"); b.clear(); h.forEach([&](K, String v) { b.insert(S(v)); return true; }); c.check(a == b, "forEach gives other values");
    }
    void run(mc::Ctx &c, int n) {
        int drop = c.choose(4), how = c.choose(2); c.note([&] { return std::to_string(n) + " keys put, then " + (drop == 0 ? "every second" : drop == 1 ? "the first half" : drop == 2 ? "all in the opposite order" : "all by clear") + " removed, then " + (how ? "putIfAbsent" : "put") + " and replace of every third"; });
        c.state(mc::mix(n, drop * 2 + how));
        for (int i = 0; i < n; i++) put(c, i, "value number " + std::to_string(i), 0); look(c, n + 3, h);
        ConcurrentHashMap<K, String> k(h); look(c, n + 3, k); c.check(k.equals(h) && h.equals(k), "a copy equals its original");
        auto drop1 = [&](int i) { c.eq(S(h.remove(key(i))), m.count(i) ? m[i] : "", "remove()"); m.erase(i); };
        if (drop == 0) for (int i = 0; i < n; i += 2) drop1(i); else if (drop == 1) for (int i = 0; i < n / 2; i++) drop1(i); else if (drop == 2) for (int i = n; i >= 0; i--) drop1(i); else { h.clear(); m.clear(); }
        look(c, n + 3, h); if ((int)m.size() != n) c.check(!k.equals(h) && !h.equals(k), "equals() of different maps");
        for (int i = 0; i < n; i += 3) put(c, i, "other " + std::to_string(i), how); for (int i = 0; i < n + 3; i += 3) put(c, i + 1, "replaced " + std::to_string(i), 2); look(c, n + 3, h);
        k = h; look(c, n + 3, k); c.check(k.equals(h), "an assigned map equals its original");
    }
};
template<class N> static N pattern(int which, int i) {
    switch (which) {
        case 0: return (N)i; case 1: return (N)-i; case 2: return (N)((uint64_t)i << (sizeof(N) == 8 ? 32 : 16)); case 3: return (N)((uint64_t)i << (sizeof(N) == 8 ? 48 : 22)); case 4: return (N)(i * 0x01010101ULL); case 5: return (N)(i * 64); case 6: return (N)(i * 65536 + i);
        case 7: return (N)(i * 0x0101010101010101ULL); default: return (N)(i * 0x9E3779B97F4A7C15ULL);
    }
}
static int count(mc::Ctx &c, int depth) { return c.pick({0, 1, 4, 17, 65, depth > 1 ? 5000 : 400}); }
SCENARIO(manyInts, "up to 400 (5000) int keys of nine patterns, removed in four ways, put again", 1, 1, 2) { int p = c.choose(9), n = count(c, depth); c.note([&] { return "pattern " + std::to_string(p); }); Many<int> t; t.key = [p](int i) { return pattern<int>(p, i); }; t.run(c, p == 3 ? std::min(n, 1000) : n); }
SCENARIO(manyLongs, "the same with long keys", 1, 1, 2) { int p = c.choose(9), n = count(c, depth); c.note([&] { return "pattern " + std::to_string(p); }); Many<long> t; t.key = [p](int i) { return pattern<long>(p, i); }; t.run(c, n); }
SCENARIO(manyStrings, "the same with String keys of six patterns", 1, 1, 2) {
    int p = c.choose(6), n = count(c, depth); c.note([&] { return "pattern " + std::to_string(p); }); Many<String> t;
    t.key = [p](int i) { std::string d = std::to_string(i); return String(p == 0 ? d : p == 1 ? std::string(60, 'x') + d : p == 2 ? std::string(i, 'x') : p == 3 ? std::string(1, '\0') + d : p == 4 ? "a" + std::string(1, '\0') + d : d + std::string(40, ' ')); };
    t.run(c, p == 2 ? std::min(n, 300) : n);
}
SCENARIO(manyIntegers, "the same with Integer keys", 1, 1, 2) { int p = c.choose(9), n = count(c, depth); c.note([&] { return "pattern " + std::to_string(p); }); Many<Integer> t; t.key = [p](int i) { return Integer(pattern<int>(p, i)); }; t.run(c, p == 3 ? std::min(n, 1000) : n); }
// One key at a time, up and down through the sizes at which the table is doubled: an exact check after each.
SCENARIO(everySize, "every number of keys up to 600 (3000) on the way up, and down again, checked at each", 1, 1, 2) {
    int p = c.choose(9), n = depth > 1 ? 3000 : 600; c.note([&] { return "int keys, pattern " + std::to_string(p); }); ConcurrentHashMap<int, int> h; auto key = [p](int i) { return pattern<int>(p, i); };
    auto all = [&](int k, int from) { c.eq((long)h.size(), (long)k, "size()"); for (int i = from; i < from + k; i += 1 + k / 16) c.eq(h.get(key(i)), i + 1, "get()"); c.eq(h.get(key(from + k)), 0, "get() of a missing key"); };
    if (p == 3) n = std::min(n, 1000);
    for (int i = 0; i < n; i++) { h.put(key(i), i + 1); all(i + 1, 0); } for (int i = 0; i < n; i++) { c.eq(h.remove(key(i)), i + 1, "remove()"); all(n - 1 - i, i + 1); } c.state(p);
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
