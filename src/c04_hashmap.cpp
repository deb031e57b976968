// C04: HashMap against std::map.
#include "col_common.hpp"
#include "library/Java/Util/HashMap/HashMap.hpp"
using namespace Java::Util;
typedef std::map<int, int> Model;
template<class K, class V> struct T {
    typedef HashMap<K, V> H; typedef El<K> X; typedef El<V> Y; typedef typename Map<K, V>::Entry Entry;
    static uint64_t hash(const Model &m) { uint64_t h = m.size(); for (auto &e : m) h = mc::mix(mc::mix(h, e.first + 1), e.second + 1); return h; }
    static std::string show(const Model &m) { std::string s = "{"; for (auto &e : m) s += (s.size() > 1 ? ", " : "") + mc::show(X::text(e.first)) + ": " + mc::show(Y::text(e.second)); return s + "}"; }
    template<class U> static std::string quotedKey(int id, U *) { return El<U>::text(id); }
    static std::string quotedKey(int id, String *) { return "\"" + El<String>::text(id) + "\""; }
    static bool isBlank(const V &v) { return Y::id(v) == Y::blank; }
    static void text(mc::Ctx &c, H &h, const Model &m, std::true_type) {
        std::string got = S(h.toString()), want = "{"; bool first = true;
        for (auto &e : h) { want += (first ? "" : ", ") + quotedKey(X::id(e.first), (K *)nullptr) + ": " + Y::quoted(Y::id(e.second)); first = false; } want += "}"; c.eq(got, want, "toString() (in the order of iteration)");
    }
    static void text(mc::Ctx &, H &, const Model &, std::false_type) {}
    static void entries(mc::Ctx &c, H &h, const Model &m, std::true_type) {
        Model s; auto set = h.entrySet(); int n = 0; for (Entry e : set) { s[X::id(e.getKey())] = Y::id(e.getValue()); n++; e.setValue(Y::make(0)); c.eq(Y::id(e.getValue()), 0, "getValue() after setValue()"); } c.check(s == m && n == (int)m.size() && (int)set.size() == n, "entrySet() is " + show(s) + ", expected " + show(m));
    }
    static void entries(mc::Ctx &, H &, const Model &, std::false_type) {}
    static void view(mc::Ctx &c, H &h, const Model &m, const char *who) {
        const H &k = h; auto bad = [&](const std::string &what) { c.fail(std::string(who) + ": " + what + " differs from " + show(m)); };
        if (k.size() != (long)m.size()) bad("size() " + std::to_string((long)k.size())); if ((bool)k.isEmpty() != m.empty()) bad("isEmpty()");
        for (int i = 0; i < 4; i++) {
            auto it = m.find(i); bool has = it != m.end(); const K key = X::make(i);
            if ((bool)k.containsKey(key) != has) bad("containsKey()"); if (has ? Y::id(k.get(key)) != it->second : !isBlank(k.get(key))) bad("get()");
            for (int d = 0; d < 2; d++) if (Y::id(k.getOrDefault(key, Y::make(d))) != (has ? it->second : d)) bad("getOrDefault()");
            bool v = false; for (auto &e : m) v |= e.second == i; if ((bool)k.containsValue(Y::make(i)) != v) bad("containsValue()");
        }
        if (k.size() != (long)m.size()) bad("size() after lookups of missing keys");
        Model s; int n = 0; for (auto const &e : k) { s[X::id(e.first)] = Y::id(e.second); n++; } if (s != m || n != (int)m.size()) bad("iteration"); s.clear(); n = 0;
        k.forEach([&](K a, V b) { s[X::id(a)] = Y::id(b); n++; return true; }); if (s != m || n != (int)m.size()) bad("forEach()"); n = 0; k.forEach([&](K, V) { n++; return false; }); if (n != (m.empty() ? 0 : 1)) bad("forEach() stopped by its callback");
        text(c, h, m, std::integral_constant<bool, !std::is_same<V, int>::value && !std::is_same<K, int>::value>()); entries(c, h, m, std::true_type());
    }
    static void start(mc::Ctx &c, std::unique_ptr<H> &h, Model &m) {
        switch (c.choose(3)) {
            case 0: h.reset(new H()); break;
            case 1: h.reset(new H({std::make_tuple(X::make(0), Y::make(0)), std::make_tuple(X::make(1), Y::make(1)), std::make_tuple(X::make(0), Y::make(2))})); m = {{0, 2}, {1, 1}}; break;   // as successive puts
            default: h.reset(new H()); for (int i = 0; i < 4; i++) { h->put(X::make(i), Y::make(3 - i)); m[i] = 3 - i; } break;
        }
        c.note([&] { return "start with " + show(m); });
    }
    static void run(mc::Ctx &c, int depth, bool wide) {
        std::unique_ptr<H> x, y(new H()); Model m, q; start(c, x, m);
        for (int step = 0; step < depth; step++) {
            int op = c.choose(wide ? 15 : 6); int ki = 0, vi = 0; auto key = [&] { ki = c.choose(3); return X::make(ki); }; auto val = [&] { vi = c.choose(wide ? 3 : 2); return Y::make(vi); };
            auto note = [&](const char *w, bool v) { c.note([&] { return std::string(w) + " " + mc::show(X::text(ki)) + (v ? " " + mc::show(Y::text(vi)) : ""); }); };
            auto old = [&](int got, const char *what) { auto it = m.find(ki); int want = it == m.end() ? Y::blank : it->second; c.eq(got, want, what); return it != m.end(); };
            switch (op) {
                case 0: { K k = key(); V v = val(); note("put", true); x->put(k, v); m[ki] = vi; } break;
                case 1: { K k = key(); note("remove", false); old(Y::id(x->remove(k)), "remove(key)"); m.erase(ki); } break;
                case 2: { K k = key(); V v = val(); note("putIfAbsent", true); if (!old(Y::id(x->putIfAbsent(k, v)), "putIfAbsent()")) m[ki] = vi; } break;
                case 3: { K k = key(); V v = val(); note("replace", true); if (old(Y::id(x->replace(k, v)), "replace()")) m[ki] = vi; } break;
                case 4: c.note([] { return "clear"; }); x->clear(); m.clear(); break;
                case 5: c.note([] { return "y = copy of x"; }); y.reset(new H(*x)); q = m; break;
                case 6: { K k = key(); V v = val(); note("remove if", true); bool ok = m.count(ki) && m[ki] == vi; c.eq((bool)x->remove(k, v), ok, "remove(key, value)"); if (ok) m.erase(ki); } break;
                case 7: { K k = key(); V v = val(); int wi = c.choose(3); note("replace if", true); bool ok = m.count(ki) && m[ki] == vi; c.eq((bool)x->replace(k, v, Y::make(wi)), ok, "replace(key, old, new)"); if (ok) m[ki] = wi; } break;
                case 8: c.note([] { return "y = x.clone()"; }); y.reset(new H(x->clone())); q = m; break;
                case 9: c.note([] { return "x = y"; }); *x = *y; m = q; break;
                case 10: c.note([] { return "swap x and y"; }); std::swap(x, y); std::swap(m, q); break;
                case 11: c.note([] { return "x.putAll(y)"; }); x->putAll(*y); for (auto &e : q) m[e.first] = e.second; break;
                case 12: { c.note([] { return "x.putAll(x), x = x"; }); x->putAll(*x); H &r = *x; *x = r; } break;
                case 13: c.note([] { return "reinitialize"; }); x->reinitialize(); m.clear(); break;
                default: { if (m.empty()) throw mc::Skip(); bool rep = c.flip(); c.note([&] { return std::string(rep ? "put with" : "remove with") + " its own key and value"; }); auto it = x->begin(); int a = X::id(it->first), b = Y::id(it->second); if (rep) { x->put(it->first, it->second); } else { V r = x->remove(it->first); c.eq(Y::id(r), b, "remove(own key)"); m.erase(a); } } break;
            }
            if (step == depth - 1) { view(c, *x, m, "x"); if (wide) view(c, *y, q, "y"); c.eq((bool)x->equals(*y), m == q, "equals()"); c.eq((bool)y->equals(*x), m == q, "equals()"); } else c.eq((long)x->size(), (long)m.size(), "size()");
            c.state(mc::mix(hash(m), hash(q)));
        }
    }
};
SCENARIO(stringString, "String to String: all histories of 15 kinds of operations over two maps from 3 starting maps", 1, 3, 3) { T<String, String>::run(c, depth, true); }
SCENARIO(integerInt, "Integer to int: all histories of 15 kinds of operations over two maps from 3 starting maps", 1, 2, 3) { T<Integer, int>::run(c, depth, true); }
SCENARIO(integerString, "Integer to String: all histories of 15 kinds of operations over two maps from 3 starting maps", 1, 2, 3) { T<Integer, String>::run(c, depth, true); }
SCENARIO(stringInteger, "String to Integer: all histories of 15 kinds of operations over two maps from 3 starting maps", 1, 2, 3) { T<String, Integer>::run(c, depth, true); }
SCENARIO(deepStrings, "String to String: longer histories of put, remove, putIfAbsent, replace, clear, copy", 3, 4, 5) { T<String, String>::run(c, depth, false); }
SCENARIO(deepInts, "Integer to int: longer histories of put, remove, putIfAbsent, replace, clear, copy", 3, 4, 5) { T<Integer, int>::run(c, depth, false); }
// equals on all pairs of small maps
SCENARIO(equality, "equals of all pairs of maps over 3 keys and 3 values", 1, 1, 1) {
    int a = c.choose(64), b = c.choose(64); HashMap<String, Integer> x, y; Model m, q; int ia = a, ib = b;
    for (int k = 0; k < 3; k++, ia /= 4, ib /= 4) { if (ia % 4) { x.put(El<String>::make(k), El<Integer>::make(ia % 4 - 1)); m[k] = ia % 4; } if (ib % 4) { y.put(El<String>::make(2 - k), El<Integer>::make(ib % 4 - 1)); q[2 - k] = ib % 4; } }
    c.note([&] { return "x " + T<String, Integer>::show(m) + ", y " + T<String, Integer>::show(q); }); c.state(mc::mix(a, b)); c.eq((bool)x.equals(y), m == q, "equals()"); c.eq((bool)y.equals(x), m == q, "equals()");
}
SCENARIO(texts, "toString of a map of one or two texts, the values and keys over every text of up to depth characters", 2, 2, 3) {
    auto word = [&] { std::string s; int n = c.choose(depth + 1); for (int i = 0; i < n; i++) s += "{[x\"]}, "[c.choose(8)]; return s; };
    auto quoted = [](const std::string &v) { return !v.empty() && (v[0] == '[' || v[0] == '{') ? v : "\"" + v + "\""; };
    std::string k = word(), v = word(); HashMap<String, String> h; h.put(k.c_str(), v.c_str()); std::string one = "\"" + k + "\": " + quoted(v), two = "\"key\": \"\""; c.eq(S(h.toString()), "{" + one + "}", "toString()");
    h.put("key", ""); std::string s = S(h.toString()); c.checkf(s == "{" + one + ", " + two + "}" || s == "{" + two + ", " + one + "}", [&] { return "toString() is " + mc::show(s); });
}
SCENARIO(many, "maps of up to 300 keys built in three orders, then half removed, then refilled", 1, 1, 1) {
    int n = 30 * c.range(0, 10), order = c.choose(3); HashMap<Integer, String> h; std::map<int, std::string> m; auto key = [&](int i) { return order == 0 ? i : order == 1 ? n - i : i * 64; }; c.note([&] { return std::to_string(n) + " keys"; }); c.state(mc::mix(n, order));
    auto put = [&](int k, std::string v) { h.put(Integer(k), String(v)); m[k] = v; }; auto look = [&] { c.eq((long)h.size(), (long)m.size(), "size()"); for (auto &e : m) c.eq(S(h.get(Integer(e.first))), e.second, "get()"); std::map<int, std::string> s; for (auto const &e : h) s[e.first.intValue()] = S(e.second); c.check(s == m, "iteration"); };
    for (int i = 0; i < n; i++) put(key(i), "v" + std::to_string(i)); look(); for (int i = 0; i < n; i += 2) { c.eq(S(h.remove(Integer(key(i)))), m[key(i)], "remove()"); m.erase(key(i)); } look(); for (int i = 0; i < n; i += 3) put(key(i), "w"); look(); HashMap<Integer, String> k(h); c.check(k.equals(h), "a copy equals its original");
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
