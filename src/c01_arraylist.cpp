// C01: ArrayList against std::vector.
#include "col_common.hpp"
#include "library/Java/Util/ArrayList/ArrayList.hpp"
using namespace Java::Util;
#define IOOBE "IndexOutOfBoundsException"
template<class E> struct T {
    typedef ArrayList<E> L; typedef El<E> X;
    static void view(mc::Ctx &c, L &l, const Ids &m, const char *who) {
        int n = (int)m.size(); const L &k = l; std::string w = who;
        auto bad = [&](const char *what) { c.fail(w + ": " + what + " differs from " + idsText<E>(m)); };
        if (l.size() != n) c.fail(w + ": size() is " + std::to_string((long)l.size()) + ", expected " + std::to_string(n)); if ((bool)l.isEmpty() != (n == 0)) bad("isEmpty()");
        for (int i = 0; i < n; i++) { if (X::id(k.get(i)) != m[i]) bad("get()"); if (X::id(l[i]) != m[i]) bad("[]"); }
        for (int i : {-1, n, INT_MAX}) if (!refused<IndexOutOfBoundsException>(IOOBE, [&] { (void)k.get(i); })) c.fail(w + ": get(" + std::to_string(i) + ") of a list of " + std::to_string(n) + " was not refused");
        Ids it; for (const E &e : k) it.push_back(X::id(e)); if (it != m) bad("iteration"); it.clear(); for (E &e : l) it.push_back(X::id(e)); if (it != m) bad("iteration");
        for (int v = 0; v < 4; v++) {
            int f = -1, g = -1; for (int i = 0; i < n; i++) if (m[i] == v) { if (f < 0) f = i; g = i; } E e = X::make(v);
            if (k.indexOf(e) != f) bad("indexOf()"); if (k.lastIndexOf(e) != g) bad("lastIndexOf()"); if ((bool)k.contains(e) != (f >= 0)) bad("contains()");
        }
        if (idsOf<E>(l.toArray()) != m) bad("toArray()");
        std::string t = "["; for (int i = 0; i < n; i++) t += (i ? ", " : "") + X::quoted(m[i]); t += "]"; std::string got = S(l.toString()); if (got != t) c.fail(w + ": toString() is " + got + ", expected " + t);
        for (int stop = 0; stop <= n; stop += n > 2 ? n - 1 : 1) { Ids seen; l.forEach([&](E e) { seen.push_back(X::id(e)); return (int)seen.size() != stop; }); if (seen != (stop ? Ids(m.begin(), m.begin() + stop) : m)) bad("forEach()"); }
        std::ostringstream os; os << k; std::string o; for (int v : m) o += X::text(v) + " "; if (os.str() != o + "\n") bad("<<");
    }
    static void start(mc::Ctx &c, std::unique_ptr<L> &l, Ids &m) {
        switch (c.choose(5)) {
            case 0: l.reset(new L()); break;
            case 1: l.reset(new L({X::make(0), X::make(1), X::make(0)})); m = {0, 1, 0}; break;
            case 2: { Array<E> a; a.push(X::make(2)); a.push(X::make(1)); l.reset(new L(a)); m = {2, 1}; } break;
            case 3: l.reset(new L(3)); m = {X::blank, X::blank, X::blank}; break;
            default: l.reset(new L()); for (int v : {0, 1, 2, 3, 0, 1}) { l->add(X::make(v)); m.push_back(v); } break;
        }
        c.note([&] { return "start with " + idsText<E>(m); });
    }
    static void run(mc::Ctx &c, int depth, bool wide) {
        std::unique_ptr<L> x, y(new L()); Ids m, q; start(c, x, m); int vals = wide ? 4 : 2;
        for (int step = 0; step < depth; step++) {
            int n = (int)m.size(), op = c.choose(wide ? 14 : 6);
            switch (op) {
                case 0: { int v = c.choose(vals); c.note([&] { return "add " + mc::show(X::text(v)); }); c.check((bool)x->add(X::make(v)), "add() answered false"); m.push_back(v); } break;
                case 1: { int i = position(c, n, wide, n), v = c.choose(vals - 1); c.note([&] { return "add at " + std::to_string(i) + " " + mc::show(X::text(v)); });
                    bool r = refused<IndexOutOfBoundsException>(IOOBE, [&] { x->add(i, X::make(v)); }); if (i >= 0 && i <= n) { c.check(!r, "add(index, element) was refused"); m.insert(m.begin() + i, v); } } break;
                case 2: { int i = position(c, n, wide, n - 1); c.note([&] { return "remove at " + std::to_string(i); }); int got = -2; bool r = refused<IndexOutOfBoundsException>(IOOBE, [&] { got = X::id(x->remove(i)); });
                    bool ok = i >= 0 && i < n; c.check(r == !ok, "remove(index) was refused or not refused wrongly"); if (ok) { c.eq(got, m[i], "remove(index)"); m.erase(m.begin() + i); } } break;
                case 3: { int v = c.choose(vals); c.note([&] { return "remove " + mc::show(X::text(v)); }); auto it = std::find(m.begin(), m.end(), v); const E e = X::make(v); c.eq((bool)x->remove(e), it != m.end(), "remove(element)"); if (it != m.end()) m.erase(it); } break;
                case 4: { int i = position(c, n, wide, n - 1), v = c.choose(vals - 1); c.note([&] { return "set " + std::to_string(i) + " to " + mc::show(X::text(v)); });
                    bool ok = i >= 0 && i < n, r = refused<IndexOutOfBoundsException>(IOOBE, [&] { x->set(i, X::make(v)); }); c.check(r == !ok, "set() was refused or not refused wrongly"); if (ok) m[i] = v; } break;
                case 5: c.note([] { return "clear"; }); x->clear(); m.clear(); break;
                case 6: c.note([] { return "y = copy of x"; }); y.reset(new L(*x)); q = m; break;
                case 7: c.note([] { return "y = x.clone()"; }); y.reset(new L(x->clone())); q = m; break;
                case 8: c.note([] { return "x = y"; }); *x = *y; m = q; break;
                case 9: c.note([] { return "x = x"; }); { L &r = *x; *x = r; } break;
                case 10: c.note([] { return "swap x and y"; }); std::swap(x, y); std::swap(m, q); break;
                case 11: { if (!n) throw mc::Skip(); int i = position(c, n, false, n - 1); bool at = c.flip(); c.note([&] { return std::string(at ? "insert its own element " : "append its own element ") + std::to_string(i); }); if (at) { x->add(0, (*x)[i]); m.insert(m.begin(), int(m[i])); } else { x->add((*x)[i]); m.push_back(int(m[i])); } } break;
                case 12: { if (!n) throw mc::Skip(); int i = position(c, n, false, n - 1), v = c.choose(vals); c.note([&] { return "[" + std::to_string(i) + "] = " + mc::show(X::text(v)); }); (*x)[i] = X::make(v); m[i] = v; } break;
                default: c.note([] { return "trimToSize"; }); x->trimToSize(); break;
            }
            if (step == depth - 1) { view(c, *x, m, "x"); if (wide) view(c, *y, q, "y"); } else { (void)x->toString(); c.eq((int)x->size(), (int)m.size(), "size()"); }   // shorter histories were looked at in full at their own depth
            c.state(mc::mix(hashIds(m), hashIds(q)));
        }
    }
};
SCENARIO(integers, "Integer: all histories of 14 kinds of operations over two lists from 5 kinds of starting lists", 1, 2, 3) { T<Integer>::run(c, depth, true); }
SCENARIO(strings, "String: all histories of 14 kinds of operations over two lists from 5 kinds of starting lists", 1, 3, 3) { T<String>::run(c, depth, true); }
SCENARIO(deepIntegers, "Integer: longer histories of add, insert, remove, set, clear", 4, 4, 5) { T<Integer>::run(c, depth, false); }
SCENARIO(deepStrings, "String: longer histories of add, insert, remove, set, clear", 4, 4, 5) { T<String>::run(c, depth, false); }
SCENARIO(nested, "lists of lists: the inner lists are copied; text of nested lists", 1, 3, 4) {
    typedef ArrayList<Integer> L; ArrayList<L> x; std::vector<Ids> m; L in; Ids q;
    for (int i = 0; i < depth; i++) {
        switch (c.choose(4)) {
            case 0: c.note([] { return "inner.add"; }); in.add(El<Integer>::make(i % 4)); q.push_back(i % 4); break;
            case 1: c.note([] { return "outer.add(inner)"; }); x.add(in); m.push_back(q); break;
            case 2: { if (m.empty()) throw mc::Skip(); c.note([] { return "outer[0].add"; }); x[0].add(El<Integer>::make(0)); m[0].push_back(0); } break;
            default: { if (m.empty()) throw mc::Skip(); c.note([] { return "inner = outer.remove(last)"; }); in = x.remove((int)m.size() - 1); q = m.back(); m.pop_back(); } break;
        }
        std::string t = "["; uint64_t h = hashIds(q); for (size_t k = 0; k < m.size(); k++) { t += k ? ", [" : "["; for (size_t j = 0; j < m[k].size(); j++) t += (j ? ", " : "") + El<Integer>::text(m[k][j]); t += "]"; h = hashIds(m[k], h); } t += "]"; c.state(h);
        c.eq(S(x.toString()), t, "toString()"); c.eq((long)x.size(), (long)m.size(), "size()"); T<Integer>::view(c, in, q, "inner"); for (size_t k = 0; k < m.size(); k++) T<Integer>::view(c, x[(int)k], m[k], "outer[k]");
    }
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
