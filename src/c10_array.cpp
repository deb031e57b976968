// C10: Array against std::vector.
#include "col_common.hpp"
typedef std::vector<int> M;
template<class E> struct T {
    typedef El<E> X;
    static void view(mc::Ctx &c, Array<E> &a, const M &m, const char *who) {
        std::string w = who; int n = (int)m.size(); const Array<E> &k = a;
        c.eq((int)a.length, n, "length"); M it; for (E e : k) it.push_back(X::id(e)); c.check(it == m, w + ": iteration shows other elements");
        for (int i = 0; i < n; i++) { c.eq(X::id(a.get(i)), m[i], "get()"); c.eq(X::id(a[i]), m[i], "[]"); c.eq(X::id(k[i]), m[i], "[] of a constant array"); }
        for (int i : {-1, n, n + 1, INT_MAX, INT_MIN}) { c.check(outside([&] { k.get(i); }), w + ": get() outside the array is not refused"); c.check(outside([&] { a[i]; }), w + ": [] outside the array is not refused"); c.check(outside([&] { k[i]; }), w + ": [] outside a constant array is not refused"); }
    }
    template<class F> static bool outside(F f) { try { f(); } catch (const std::out_of_range &) { return true; } catch (const Exception &) { return true; } return false; }
    static Array<E> first(mc::Ctx &c, M &m) {
        switch (c.choose(4)) {
            case 0: c.note([] { return "Array()"; }); return Array<E>();
            case 1: { int n = c.choose(4); c.note([&] { return "Array(" + std::to_string(n) + ")"; }); m.assign(n, (int)X::blank); return Array<E>((long)n); }
            case 2: c.note([] { return "Array of one"; }); m = {2}; return Array<E>{X::make(2)};
            default: c.note([] { return "Array of three"; }); m = {0, 1, 3}; return Array<E>{X::make(0), X::make(1), X::make(3)};
        }
    }
    static void run(mc::Ctx &c, int depth) {
        M m, q; Array<E> x = first(c, m), y;
        for (int step = 1; step < depth; step++) {
            int n = (int)m.size();
            switch (c.choose(9)) {
                case 0: { int v = c.choose(3); c.note([&] { return "push " + mc::show(X::text(v)); }); x.push(X::make(v)); m.push_back(v); } break;
                case 1: { if (!n) throw mc::Skip(); int at = position(c, n, false, n - 1), v = c.choose(2); c.note([&] { return "[" + std::to_string(at) + "] = " + mc::show(X::text(v)); }); x[at] = X::make(v); m[at] = v; } break;
                case 2: { int k = c.choose(4); c.note([&] { return "+= " + std::to_string(k) + " elements"; }); Array<E> r = k == 0 ? (x += std::initializer_list<E>()) : k == 1 ? (x += {X::make(1)}) : k == 2 ? (x += {X::make(2), X::make(0)}) : (x += {X::make(3), X::make(3), X::make(1)}); static const M ADD[] = {{}, {1}, {2, 0}, {3, 3, 1}}; m.insert(m.end(), ADD[k].begin(), ADD[k].end()); view(c, r, m, "what += gives"); r.push(X::make(0)); } break;
                case 3: { if (!n) throw mc::Skip(); int at = position(c, n, false, n - 1); c.note([&] { return "push its own element " + std::to_string(at); }); x.push(x[at]); m.push_back(m[at]); } break;
                case 4: { if (!n) throw mc::Skip(); int at = position(c, n, false, n - 1), to = position(c, n, false, n - 1); c.note([&] { return "[" + std::to_string(to) + "] = [" + std::to_string(at) + "]"; }); x[to] = x[at]; m[to] = m[at]; } break;
                case 5: c.note([] { return "y = x"; }); y = x; q = m; break;
                case 6: c.note([] { return "x = y"; }); x = y; m = q; break;
                case 7: { c.note([] { return "x = x"; }); Array<E> &same = x; x = same; } break;
                default: { c.note([] { return "a copy that is changed"; }); Array<E> z(x); M r = m; z.push(X::make(1)); r.push_back(1); z[0] = X::make(2); r[0] = 2; view(c, z, r, "the copy"); } break;
            }
        }
        view(c, x, m, "x"); view(c, y, q, "y"); c.state(hashIds(q, hashIds(m)));
    }
};
SCENARIO(integers, "Integer: all histories of 9 kinds of operations over two arrays from 4 kinds of starting arrays", 1, 4, 5) { T<Integer>::run(c, depth); }
SCENARIO(strings, "String: all histories of 9 kinds of operations over two arrays from 4 kinds of starting arrays", 1, 4, 5) { T<String>::run(c, depth); }
SCENARIO(ints, "int: all histories of 9 kinds of operations over two arrays from 4 kinds of starting arrays", 1, 4, 5) { T<int>::run(c, depth); }
SCENARIO(texts, "arrays made from C texts that end at the null", 1, 5, 6) {
    static const char *const V[] = {"", "a", "a text that is too long to be stored inside the object", "\xc3\xa9\xff"}; char *v[8]; std::vector<std::string> want; for (int i = 0; i < depth - 1; i++) { want.push_back(V[c.choose(4)]); v[i] = strdup(want[i].c_str()); } v[depth - 1] = nullptr; v[depth] = (char *)"behind the end";
    Array<String> a((string *)v); c.eq((int)a.length, (int)want.size(), "length"); for (int i = 0; i < (int)want.size(); i++) { v[i][0] = '?'; free(v[i]); c.eq(S(a.get(i)), want[i], "element"); }
}
SCENARIO(nested, "arrays of arrays: all histories of adding to the outer and the inner ones", 1, 6, 7) {
    Array<Array<int>> a; std::vector<M> m; for (int i = 1; i < depth; i++) {
        int k = c.choose(4), n = (int)m.size();
        if (k == 0) { a.push(Array<int>()); m.push_back(M()); } else if (!n) throw mc::Skip(); else if (k == 1) { int at = position(c, n, false, n - 1); a[at].push(i); m[at].push_back(i); } else if (k == 2) { int at = position(c, n, false, n - 1); a.push(a[at]); M copy = m[at]; m.push_back(copy); } else { int at = position(c, n, false, n - 1); a.get(at).push(9); }
    }
    c.eq((int)a.length, (int)m.size(), "length"); for (size_t i = 0; i < m.size(); i++) { const Array<int> &r = a[(int)i]; M got; for (int v : r) got.push_back(v); c.check(got == m[i] && (int)r.length == (int)m[i].size(), "an inner array differs"); }
}
SCENARIO(growth, "arrays of up to 300 elements", 1, 1, 1) {
    int n = c.choose(301), made = c.choose(2); Array<String> a; M m; if (made) { a = Array<String>((long)n); for (int i = 0; i < n; i++) a[i] = El<String>::make(i % 4); } else for (int i = 0; i < n; i++) a.push(El<String>::make(i % 4)); for (int i = 0; i < n; i++) m.push_back(i % 4); T<String>::view(c, a, m, "x");
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
