// C05: Set against std::set.
#include "col_common.hpp"
#include "library/Java/Util/Set/Set.hpp"
using namespace Java::Util;
template<class E> struct T {
    typedef El<E> X; typedef std::set<int> M;
    static void view(mc::Ctx &c, Set<E> &s, const M &m, const char *who) {
        std::string w = who; c.eq(s.size(), (int)m.size(), "size()"); c.eq((bool)s.isEmpty(), m.empty(), "isEmpty()"); M it; int n = 0, last = -1; const Set<E> &k = s;
        for (E e : k) { int id = X::id(e); it.insert(id); n++; if (last >= 0) c.check(X::rank(last) < X::rank(id), w + ": iteration is not in ascending order"); last = id; } c.check(it == m && n == (int)m.size(), w + ": iteration shows other elements"); n = 0; for (auto i = s.begin(); i != s.end(); ++i) n++; c.eq(n, (int)m.size(), "iteration");
        for (int v = 0; v < 4; v++) c.eq((bool)s.contains(X::make(v)), m.count(v) > 0, "contains()");
    }
    static void run(mc::Ctx &c, int depth) {
        Set<E> x, y; M m, q;
        for (int step = 0; step < depth; step++) {
            switch (c.choose(6)) {
                case 0: { int v = c.choose(4); c.note([&] { return "add " + mc::show(X::text(v)); }); c.eq((bool)x.add(X::make(v)), m.insert(v).second, "add()"); } break;
                case 1: { int v = c.choose(4); c.note([&] { return "remove " + mc::show(X::text(v)); }); c.eq((bool)x.remove(X::make(v)), m.erase(v) > 0, "remove()"); } break;
                case 2: c.note([] { return "clear"; }); x.clear(); m.clear(); break;
                case 3: c.note([] { return "y = x"; }); y = x; q = m; break;
                case 4: c.note([] { return "x = y"; }); x = y; m = q; break;
                default: { if (m.empty()) throw mc::Skip(); bool first = c.flip(); c.note([] { return "remove its own element"; }); auto it = x.begin(); if (!first) for (size_t i = 1; i < m.size(); i++) ++it; int id = X::id(*it); c.check((bool)x.remove(*it), "remove(own element) answered false"); m.erase(id); } break;
            }
            if (step == depth - 1) { view(c, x, m, "x"); view(c, y, q, "y"); } uint64_t h = 0; for (int v : m) h |= 1 << v; for (int v : q) h |= 16 << v; c.state(h);
        }
    }
};
SCENARIO(integers, "Integer: all histories of add, remove, clear, assignment over two sets", 1, 5, 6) { T<Integer>::run(c, depth); }
SCENARIO(strings, "String: all histories of add, remove, clear, assignment over two sets", 1, 5, 6) { T<String>::run(c, depth); }
SCENARIO(ints, "int: all histories of add, remove, clear, assignment over two sets", 1, 5, 6) { T<int>::run(c, depth); }
int main(int argc, char **argv) { return mc::main(argc, argv); }
