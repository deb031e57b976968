// C02: LinkedList against std::deque: list, queue, stack and deque operations, copies, removal while visiting.
#include "col_common.hpp"
#include "library/Java/Util/LinkedList/LinkedList.hpp"
using namespace Java::Util;
#define NSE "NoSuchElementException"
#define IOOBE "IndexOutOfBoundsException"
template<class E> struct T {
    typedef LinkedList<E> L; typedef El<E> X; typedef Java::Util::Node<E> N;
    static void view(mc::Ctx &c, L &l, const Ids &m, const char *who) {
        int n = (int)m.size(); auto bad = [&](const char *what) { c.fail(std::string(who) + ": " + what + " differs from " + idsText<E>(m)); };
        if (l.size() != n) bad("size()");
        for (int i = 0; i < n; i++) if (X::id(l.get(i)) != m[i]) bad("get()");
        for (int i : {-1, n, INT_MAX}) if (!refused<IndexOutOfBoundsException>(IOOBE, [&] { (void)l.get(i); })) bad("get(index out of range)");
        Ids it; for (N *e : l) it.push_back(X::id(e->element)); if (it != m) bad("iteration"); it.clear(); l.forEach([&](N *e) { it.push_back(X::id(e->element)); return true; }); if (it != m) bad("forEach()");
        if (n > 1) { it.clear(); l.forEach([&](N *e) { it.push_back(X::id(e->element)); return it.size() != 1; }); if (it != Ids(1, m[0])) bad("a forEach() stopped by its callback"); }
        if (n) { if (X::id(l.getFirst()) != m[0] || X::id(l.peek()) != m[0] || X::id(l.peekFirst()) != m[0] || X::id(l.element()) != m[0]) bad("the first element"); if (X::id(l.getLast()) != m[n - 1] || X::id(l.peekLast()) != m[n - 1]) bad("the last element"); }
        else {
            if (!refused<NoSuchElementException>(NSE, [&] { (void)l.getFirst(); }) || !refused<NoSuchElementException>(NSE, [&] { (void)l.getLast(); }) || !refused<NoSuchElementException>(NSE, [&] { (void)l.element(); })) bad("getFirst(), getLast() or element() of an empty list");
            if (X::id(l.peek()) != X::blank || X::id(l.peekFirst()) != X::blank || X::id(l.peekLast()) != X::blank) bad("peek of an empty list");
        }
    }
    static void take(mc::Ctx &c, Ids &m, bool last, std::function<E()> f, const char *what) {
        c.note([&] { return what; }); int got = -2; bool r = refused<NoSuchElementException>(NSE, [&] { got = X::id(f()); });
        c.check(r == m.empty(), std::string(what) + (r ? " was refused" : " of an empty list was not refused")); if (m.empty()) return;
        c.eq(got, last ? m.back() : m.front(), what); if (last) m.pop_back(); else m.erase(m.begin());
    }
    static void run(mc::Ctx &c, int depth, bool wide) {
        std::unique_ptr<L> x, y(new L()); Ids m, q;
        if (c.flip()) { x.reset(new L({X::make(0), X::make(1), X::make(0)})); m = {0, 1, 0}; } else x.reset(new L()); c.note([&] { return "start with " + idsText<E>(m); });
        for (int step = 0; step < depth; step++) {
            int n = (int)m.size(), v = step % 4, op = c.choose(wide ? 24 : 9);
            auto back = [&](const char *w) { c.note([&] { return std::string(w) + " " + mc::show(X::text(v)); }); m.push_back(v); return X::make(v); }; auto front = [&](const char *w) { c.note([&] { return std::string(w) + " " + mc::show(X::text(v)); }); m.insert(m.begin(), v); return X::make(v); };
            switch (op) {
                case 0: c.check((bool)x->add(back("add")), "add() answered false"); break;
                case 1: x->push(front("push")); break;
                case 2: take(c, m, false, [&] { return x->poll(); }, "poll()"); break;
                case 3: take(c, m, true, [&] { return x->pollLast(); }, "pollLast()"); break;
                case 4: { int i = position(c, n, true, n - 1); c.note([&] { return "remove at " + std::to_string(i); }); bool ok = i >= 0 && i < n, r = true; refused<IndexOutOfBoundsException>(IOOBE, [&] { r = x->remove(i); }); if (ok) { c.check(r, "remove(index) answered false"); m.erase(m.begin() + i); } } break;
                case 5: { if (!n) throw mc::Skip(); int mask = c.choose(1 << std::min(n, 3)); c.note([&] { return "remove nodes while visiting, mask " + std::to_string(mask); }); int k = 0; x->forEach([&](N *e) { if (mask >> k++ % 3 & 1) c.check((bool)x->remove(*e), "remove(node) answered false"); return true; });
                    c.eq(k, n, "number of nodes visited"); Ids r; for (int i = 0; i < n; i++) if (!(mask >> i % 3 & 1)) r.push_back(m[i]); m = r; } break;
                case 6: c.note([] { return "y = copy of x"; }); y.reset(new L(*x)); q = m; break;
                case 7: c.note([] { return "x = y"; }); *x = *y; m = q; break;
                case 8: c.note([] { return "swap x and y"; }); std::swap(x, y); std::swap(m, q); break;
                case 9: x->addFirst(front("addFirst")); break; case 10: x->addLast(back("addLast")); break; case 11: c.check((bool)x->offer(back("offer")), "offer() answered false"); break; case 12: c.check((bool)x->offerFirst(front("offerFirst")), "offerFirst() answered false"); break; case 13: c.check((bool)x->offerLast(back("offerLast")), "offerLast() answered false"); break;
                case 14: take(c, m, false, [&] { return x->pollFirst(); }, "pollFirst()"); break; case 15: take(c, m, false, [&] { return x->pop(); }, "pop()"); break; case 16: take(c, m, false, [&] { return x->remove(); }, "remove()"); break; case 17: take(c, m, true, [&] { return x->removeLast(); }, "removeLast()"); break;
                case 18: c.note([] { return "clear"; }); x->clear(); m.clear(); break;
                case 19: { int i = position(c, n, true, n - 1); c.note([&] { return "set " + std::to_string(i) + " to " + mc::show(X::text(v)); }); bool ok = i >= 0 && i < n, r = refused<IndexOutOfBoundsException>(IOOBE, [&] { E e = X::make(v); x->set(i, e); }); c.check(r == !ok, "set() was refused or not refused wrongly"); if (ok) m[i] = v; } break;
                case 20: { if (!n) throw mc::Skip(); int i = position(c, n, false, n - 1), k = 0; bool at = c.flip(); c.note([&] { return std::string(at ? "addFirst" : "add") + " of its own element " + std::to_string(i); }); N *node = nullptr; for (N *e : *x) if (k++ == i) node = e; if (at) x->addFirst(node->element); else x->add(node->element); int w = m[i]; if (at) m.insert(m.begin(), w); else m.push_back(w); } break;
                case 21: { c.note([&] { return "write " + mc::show(X::text(v)) + " through every node"; }); for (N *e : *x) e->element = X::make(v); for (int &e : m) e = v; } break;
                case 22: { c.note([] { return "x = x"; }); L &r = *x; *x = r; } break;
                default: { if (!n || q.empty()) throw mc::Skip(); c.note([] { return "remove a node of y from x"; }); N *node = *y->begin(); (void)x->remove(*node); } break;
            }
            if (step == depth - 1) { view(c, *x, m, "x"); view(c, *y, q, "y"); } else c.eq((int)x->size(), (int)m.size(), "size()");
            c.state(mc::mix(hashIds(m), hashIds(q)));
        }
    }
};
SCENARIO(integers, "Integer: all histories of 24 kinds of operations over two lists", 1, 3, 4) { T<Integer>::run(c, depth, true); }
SCENARIO(strings, "String: all histories of 24 kinds of operations over two lists", 1, 3, 4) { T<String>::run(c, depth, true); }
SCENARIO(ints, "int: all histories of 24 kinds of operations over two lists", 1, 3, 4) { T<int>::run(c, depth, true); }
SCENARIO(deepInts, "int: longer histories of add, push, poll, pollLast, remove, copy, assign, swap", 4, 5, 6) { T<int>::run(c, depth, false); }
SCENARIO(deepStrings, "String: longer histories of add, push, poll, pollLast, remove, copy, assign, swap", 4, 5, 6) { T<String>::run(c, depth, false); }
int main(int argc, char **argv) { return mc::main(argc, argv); }
