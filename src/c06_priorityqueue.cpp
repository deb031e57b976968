// C06: PriorityQueue against a sorted multiset: the head is always a greatest element.
#include "col_common.hpp"
#include "library/Java/Util/ArrayList/ArrayList.hpp"
#include "library/Java/Util/PriorityQueue/PriorityQueue.hpp"
using namespace Java::Util;
template<class E> struct T {
    typedef El<E> X; typedef PriorityQueue<E> Q; typedef std::multiset<int> M;   // of ranks
    static int rankOf(const E &e) { return X::rank(X::id(e)); }
    static std::multiset<int> ranks(const Array<E> &a) { M r; for (int i = 0; i < (int)a.length; i++) r.insert(rankOf(a.get(i))); return r; }
    static void view(mc::Ctx &c, Q &x, const M &m) {
        c.eq(x.size(), (int)m.size(), "size()"); c.eq(rankOf(x.peek()), m.empty() ? X::rank(X::blank) : *m.rbegin(), "peek()"); c.eq(x.size(), (int)m.size(), "size() after peek()");
        for (int v = 0; v < 4; v++) c.eq((bool)x.contains(X::make(v)), m.count(X::rank(v)) > 0, "contains()");
        c.check(ranks(x.toArray()) == m, "toArray() has other elements");
        for (int len = 0; len <= (int)m.size() + 2; len++) { Array<E> a; for (int i = 0; i < len; i++) a.push(X::make(3)); Array<E> r = x.toArray(a); int n = (int)m.size();
            c.eq((int)r.length, std::max(len, n), "length of toArray(array)"); M got; for (int i = 0; i < n; i++) got.insert(rankOf(r.get(i))); c.check(got == m, "toArray(array) has other elements"); c.eq((int)a.length, len, "length of the array given to toArray"); for (int i = 0; i < len; i++) c.eq(X::id(a.get(i)), len < n ? 3 : X::id(r.get(i)), "an element of the array given to toArray"); if (len > n) { c.eq(X::id(r.get(n)), int(X::blank), "the element after the last in toArray(array)"); for (int i = n + 1; i < len; i++) c.eq(X::id(r.get(i)), 3, "elements further on in toArray(array)"); } }
    }
    static void drain(mc::Ctx &c, Q &x, M m) { while (!m.empty()) { c.eq(rankOf(x.poll()), *m.rbegin(), "poll() while draining"); m.erase(std::prev(m.end())); c.eq(x.size(), (int)m.size(), "size() while draining"); } c.eq(X::id(x.poll()), int(X::blank), "poll() of the empty queue"); c.eq(x.size(), 0, "size() after poll() of the empty queue"); }
    static void run(mc::Ctx &c, int depth) {
        std::unique_ptr<Q> x, y(new Q()); M m, q;
        switch (c.choose(4)) { case 0: x.reset(new Q()); break; case 1: x.reset(new Q(1)); break; case 2: x.reset(new Q{X::make(0), X::make(1), X::make(3), X::make(0), X::make(2), X::make(1)}); for (int v : {0, 1, 3, 0, 2, 1}) m.insert(X::rank(v)); break; default: x.reset(new Q{X::make(2), X::make(1), X::make(0), X::make(3)}); for (int v : {2, 1, 0, 3}) m.insert(X::rank(v)); break; }
        c.note([&] { return "start with " + std::to_string(m.size()) + " elements"; });
        for (int step = 0; step < depth; step++) {
            switch (c.choose(7)) {
                case 0: { int v = c.choose(4); c.note([&] { return "add " + mc::show(X::text(v)); }); c.check((bool)x->add(X::make(v)), "add() answered false"); m.insert(X::rank(v)); } break;
                case 1: { int v = c.choose(2) * 3; c.note([&] { return "offer " + mc::show(X::text(v)); }); c.check((bool)x->offer(X::make(v)), "offer() answered false"); m.insert(X::rank(v)); } break;
                case 2: { c.note([] { return "poll"; }); int w = m.empty() ? X::rank(X::blank) : *m.rbegin(); c.eq(rankOf(x->poll()), w, "poll()"); if (!m.empty()) m.erase(std::prev(m.end())); } break;
                case 3: { int v = c.choose(4); c.note([&] { return "remove " + mc::show(X::text(v)); }); auto it = m.find(X::rank(v)); c.eq((bool)x->remove(X::make(v)), it != m.end(), "remove()"); if (it != m.end()) m.erase(it); } break;
                case 4: { int how = c.choose(3); c.note([&] { return how == 0 ? "y = copy of x" : how == 1 ? "x = y" : "swap x and y"; }); if (how == 0) { y.reset(new Q(*x)); q = m; } else if (how == 1) { *x = *y; m = q; } else { std::swap(x, y); std::swap(m, q); } } break;
                case 5: c.note([] { return "clear"; }); x->clear(); m.clear(); break;
                default: { if (m.empty()) throw mc::Skip(); c.note([] { return "add its head again"; }); E h = x->peek(); x->add(h); m.insert(int(*m.rbegin())); } break;
            }
            c.eq(rankOf(x->peek()), m.empty() ? X::rank(X::blank) : *m.rbegin(), "peek()"); uint64_t h = 7; for (int r : m) h = mc::mix(h, r); for (int r : q) h = mc::mix(h, r + 10); c.state(h);
            if (step == depth - 1) { view(c, *x, m); drain(c, *x, m); drain(c, *y, q); }
        }
    }
};
SCENARIO(integers, "Integer: all histories of add, offer, poll, remove, copies, clear from 4 starting queues, then drained", 1, 4, 5) { T<Integer>::run(c, depth); }
SCENARIO(strings, "String: all histories of add, offer, poll, remove, copies, clear from 4 starting queues, then drained", 1, 4, 5) { T<String>::run(c, depth); }
SCENARIO(ints, "int: all histories of add, offer, poll, remove, copies, clear from 4 starting queues, then drained", 1, 4, 5) { T<int>::run(c, depth); }
SCENARIO(permutations, "all sequences of up to 8 (9) adds over 3 values, then removal of each value, then drained", 1, 8, 9) {
    PriorityQueue<int> x; std::multiset<int> m; for (int i = 0; i < depth; i++) { int v = c.choose(3); x.add(v); m.insert(v); } int v = c.choose(3); c.note([&] { return "remove " + std::to_string(v); }); auto it = m.find(v); c.eq((bool)x.remove(v), it != m.end(), "remove()"); if (it != m.end()) m.erase(it);
    uint64_t h = 9; for (int r : m) h = mc::mix(h, r); c.state(h); while (!m.empty()) { c.eq(x.poll(), *m.rbegin(), "poll()"); m.erase(std::prev(m.end())); }
}
SCENARIO(refused, "a capacity below 1 is refused", 1, 1, 1) { int k = -c.range(0, 3); c.state(k); c.check(attempt([&] { PriorityQueue<int> q(k); return 0; }).threw, "PriorityQueue(capacity below 1) was not refused"); }
int main(int argc, char **argv) { return mc::main(argc, argv); }
