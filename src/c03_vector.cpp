// C03: Vector and Stack against std::vector.
#include "col_common.hpp"
#include "library/Java/Util/ArrayList/ArrayList.hpp"
#include "library/Java/Util/Stack/Stack.hpp"
#include <new>
using namespace Java::Util;
template<class E> struct T {
    typedef Vector<E> V; typedef El<E> X;
    template<class F> static bool refuses(F f) { return attempt([&] { f(); return 0; }).threw; }
    static void view(mc::Ctx &c, V &l, const Ids &m, const char *who) {
        int n = (int)m.size(); const V &k = l; std::string w = who; auto bad = [&](const std::string &what) { c.fail(w + ": " + what + " differs from " + idsText<E>(m)); };
        if (k.size() != n) bad("size()"); if ((bool)k.isEmpty() != (n == 0)) bad("isEmpty()"); if (k.capacity() < n) bad("capacity()");
        for (int i = 0; i < n; i++) if (X::id(k.get(i)) != m[i] || X::id(k.elementAt(i)) != m[i] || X::id(l[i]) != m[i] || X::id(k[i]) != m[i]) bad("get(), elementAt() or []");
        for (int i : {-1, n, INT_MAX}) if (!refuses([&] { (void)k.get(i); }) || !refuses([&] { (void)k.elementAt(i); }) || !refuses([&] { (void)l[i]; }) || !refuses([&] { (void)k[i]; })) bad("get(), elementAt() or [] out of range");
        Ids it; for (const E &e : k) it.push_back(X::id(e)); if (it != m) bad("iteration"); it.clear(); for (E &e : l) it.push_back(X::id(e)); if (it != m) bad("iteration");
        if (idsOf<E>(k.toArray()) != m) bad("toArray()"); Array<E> a; k.copyInto(a); if (idsOf<E>(a) != m) bad("copyInto()");
        if (n) { if (X::id(l.firstElement()) != m[0] || X::id(k.lastElement()) != m[n - 1]) bad("firstElement() or lastElement()"); } else if (!refuses([&] { (void)l.firstElement(); }) || !refuses([&] { (void)k.lastElement(); })) bad("firstElement() or lastElement() of an empty vector");
        for (int v = 0; v < 3; v++) {
            int f = -1, g = -1; for (int i = 0; i < n; i++) if (m[i] == v) { if (f < 0) f = i; g = i; } E e = X::make(v);
            if (k.indexOf(e) != f) bad("indexOf()"); if (k.lastIndexOf(e) != g) bad("lastIndexOf()"); if ((bool)k.contains(e) != (f >= 0)) bad("contains()");
            for (int from = -1; from <= n; from++) { bool ok = from >= 0 && from < n; int ff = -1, gg = -1; for (int i = 0; i < n; i++) if (m[i] == v) { if (i >= from && ff < 0) ff = i; if (i <= from) gg = i; }
                if (!ok && from >= 0 && v) continue;
                c.eq(attempt([&] { return l.indexOf(e, from); }), ok ? ret(ff) : thrown<int>(), "indexOf(element, from)"); c.eq(attempt([&] { return k.lastIndexOf(e, from); }), ok ? ret(gg) : thrown<int>(), "lastIndexOf(element, from)"); }
            for (int u = 0; u < 3; u++) { bool all = f >= 0 && std::count(m.begin(), m.end(), u); if ((bool)l.containsAll({e, X::make(u)}) != all) bad("containsAll()"); } if (!(bool)l.containsAll({})) bad("containsAll(nothing)");
        }
    }
    static void both(mc::Ctx &c, V &x, const Ids &m, V &y, const Ids &q) { c.eq((bool)x.equals(y), m == q, "equals()"); c.eq((bool)y.equals(x), m == q, "equals()"); c.check((bool)x.equals(x), "equals(itself)"); }
    static std::unique_ptr<V> start(mc::Ctx &c, Ids &m) {
        switch (c.choose(5)) {
            case 0: return std::unique_ptr<V>(new V());
            case 1: return std::unique_ptr<V>(new V(0));
            case 2: return std::unique_ptr<V>(new V(1, 2));
            case 3: m = {0, 1, 0, 2}; return std::unique_ptr<V>(new V{X::make(0), X::make(1), X::make(0), X::make(2)});
            default: { V t(2, 1); t.add(X::make(2)); t.add(X::make(0)); m = {2, 0}; return std::unique_ptr<V>(new V(t)); }
        }
    }
    static const std::initializer_list<E> &list(int k) { static std::initializer_list<E> L[] = {{}, {X::make(0)}, {X::make(1), X::make(2)}, {X::make(0), X::make(1), X::make(2)}}; return L[k]; }
    static Ids listIds(int k) { static const Ids L[] = {{}, {0}, {1, 2}, {0, 1, 2}}; return L[k]; }
    static bool removeObject(V &x, const E &e, std::true_type) { return x.remove((const Object &)e); }
    static bool removeObject(V &x, const E &e, std::false_type) { throw mc::Skip(); }
    static bool removeElement(V &x, const E &e, std::true_type) { return x.removeElement((const Object &)e); }
    static bool removeElement(V &x, const E &e, std::false_type) { throw mc::Skip(); }
    static void run(mc::Ctx &c, int depth, bool wide) {
        Ids m, q; auto x = start(c, m); std::unique_ptr<V> y(new V()); c.note([&] { return "start with " + idsText<E>(m); }); std::is_base_of<Object, E> object;
        for (int step = 0; step < depth; step++) {
            int n = (int)m.size(), v = step % 3, op = c.choose(wide ? 25 : 8), cap = x->capacity();
            switch (op) {
                case 0: c.note([&] { return "add " + mc::show(X::text(v)); }); c.check((bool)x->add(X::make(v)), "add() answered false"); m.push_back(v); break;
                case 1: { int i = position(c, n, wide, n); c.note([&] { return "add at " + std::to_string(i) + " " + mc::show(X::text(v)); }); bool ok = i >= 0 && i <= n; c.check(refuses([&] { x->add(i, X::make(v)); }) == !ok, "add(index) was refused or not refused wrongly"); if (ok) m.insert(m.begin() + i, v); } break;
                case 2: { int i = position(c, n, wide, n - 1), got = -2; c.note([&] { return "remove at " + std::to_string(i); }); bool ok = i >= 0 && i < n; c.check(refuses([&] { got = X::id(x->remove(i)); }) == !ok, "remove(index) was refused or not refused wrongly"); if (ok) { c.eq(got, m[i], "remove(index)"); m.erase(m.begin() + i); } } break;
                case 3: { int i = position(c, n, wide, n - 1), got = -2; c.note([&] { return "set " + std::to_string(i) + " to " + mc::show(X::text(v)); }); bool ok = i >= 0 && i < n; c.check(refuses([&] { got = X::id(x->set(i, X::make(v))); }) == !ok, "set() was refused or not refused wrongly"); if (ok) { c.eq(got, m[i], "set()"); m[i] = v; } } break;
                case 4: { if (!n) throw mc::Skip(); int i = position(c, n, false, n - 1); int how = c.choose(3); c.note([&] { return std::string("add its own element ") + std::to_string(i) + (how == 0 ? " at the end" : how == 1 ? " at the front" : " at the middle"); }); int w = m[i], at = how == 1 ? 0 : n / 2; if (how == 0) { x->add((*x)[i]); m.push_back(w); } else { x->add(at, (*x)[i]); m.insert(m.begin() + at, w); } } break;
                case 5: c.note([] { return "y = copy of x"; }); y.reset(new V(*x)); q = m; break;
                case 6: c.note([] { return "x = y"; }); *x = *y; m = q; break;
                case 7: c.note([] { return "swap x and y"; }); std::swap(x, y); std::swap(m, q); break;
                case 8: { int k = c.choose(4); c.note([&] { return "addAll of list " + std::to_string(k); }); c.eq((bool)x->addAll(list(k)), k > 0, "addAll()"); Ids l = listIds(k); m.insert(m.end(), l.begin(), l.end()); } break;
                case 9: { int k = c.choose(4), i = position(c, n, true, n); c.note([&] { return "addAll at " + std::to_string(i) + " of list " + std::to_string(k); }); bool ok = (i >= 0 && i <= n); if (!k && !ok) throw mc::Skip(); bool got = false; c.check(refuses([&] { got = x->addAll(i, list(k)); }) == !ok, "addAll(index) was refused or not refused wrongly"); if (ok) { c.eq(got, k > 0, "addAll(index)"); Ids l = listIds(k); m.insert(m.begin() + i, l.begin(), l.end()); } } break;
                case 10: { int k = c.choose(4); c.note([&] { return "removeAll of list " + std::to_string(k); }); Ids l = listIds(k), r; for (int e : m) if (!std::count(l.begin(), l.end(), e)) r.push_back(e); c.eq((bool)x->removeAll(list(k)), r.size() != m.size(), "removeAll()"); m = r; } break;
                case 11: { int k = c.choose(4); c.note([&] { return "retainAll of list " + std::to_string(k); }); Ids l = listIds(k), r; for (int e : m) if (std::count(l.begin(), l.end(), e)) r.push_back(e); c.eq((bool)x->retainAll(list(k)), r.size() != m.size(), "retainAll()"); m = r; } break;
                case 12: { int u = c.choose(3); bool el = c.flip(); c.note([&] { return std::string(el ? "removeElement " : "remove ") + mc::show(X::text(u)); }); E e = X::make(u); auto it = std::find(m.begin(), m.end(), u); c.eq(el ? removeElement(*x, e, object) : removeObject(*x, e, object), it != m.end(), "remove(element)"); if (it != m.end()) m.erase(it); } break;
                case 13: c.note([] { return "clear"; }); x->clear(); m.clear(); break;
                case 14: c.note([] { return "removeAllElements"; }); x->removeAllElements(); m.clear(); break;
                case 15: { int k = c.choose(4); int s = k == 0 ? 0 : k == 1 ? n / 2 : k == 2 ? n + 2 : -1; c.note([&] { return "setSize " + std::to_string(s); }); c.check(refuses([&] { x->setSize(s); }) == (s < 0), "setSize() was refused or not refused wrongly"); if (s >= 0) m.resize(s, int(X::blank)); } break;
                case 16: { int k = c.choose(4); int s = k == 0 ? -3 : k == 1 ? cap : k == 2 ? cap + 1 : cap + 40; c.note([&] { return "ensureCapacity " + std::to_string(s); }); x->ensureCapacity(s); c.check(x->capacity() >= s && x->capacity() >= cap, "ensureCapacity(" + std::to_string(s) + ") gave " + std::to_string(x->capacity())); } break;
                case 17: c.note([] { return "trimToSize"; }); x->trimToSize(); c.eq(x->capacity(), n, "capacity() after trimToSize()"); break;
                case 18: c.note([] { return "y = x.clone()"; }); y.reset(new V(x->clone())); q = m; break;
                case 19: { c.note([] { return "x = x"; }); V &r = *x; *x = r; } break;
                case 20: { int k = c.choose(4); c.note([&] { return "x = list " + std::to_string(k); }); *x = list(k); m = listIds(k); } break;
                case 21: { if (!n) throw mc::Skip(); int i = position(c, n, false, n - 1); c.note([&] { return "[" + std::to_string(i) + "] = " + mc::show(X::text(v)); }); (*x)[i] = X::make(v); m[i] = v; } break;
                case 22: { int i = position(c, n, true, n - 1); c.note([&] { return "removeElementAt " + std::to_string(i); }); bool ok = i >= 0 && i < n; c.check(refuses([&] { x->removeElementAt(i); }) == !ok, "removeElementAt() was refused or not refused wrongly"); if (ok) m.erase(m.begin() + i); } break;
                case 23: { int i = position(c, n, true, n); c.note([&] { return "insertElementAt " + std::to_string(i); }); bool ok = i >= 0 && i <= n; c.check(refuses([&] { x->insertElementAt(X::make(v), i); }) == !ok, "insertElementAt() was refused or not refused wrongly"); if (ok) m.insert(m.begin() + i, v); } break;
                default: { int i = position(c, n, true, n - 1); c.note([&] { return "setElementAt " + std::to_string(i) + ", addElement"; }); bool ok = i >= 0 && i < n; c.check(refuses([&] { x->setElementAt(X::make(v), i); }) == !ok, "setElementAt() was refused or not refused wrongly"); if (ok) m[i] = v; x->addElement(X::make(v)); m.push_back(v); } break;
            }
            if (step == depth - 1) { view(c, *x, m, "x"); if (wide) view(c, *y, q, "y"); both(c, *x, m, *y, q); } else c.eq(x->size(), (int)m.size(), "size()");
            c.state(mc::mix(hashIds(m), hashIds(q)));
        }
    }
};
SCENARIO(integers, "Vector of Integer: all histories of 25 kinds of operations over two vectors from 5 kinds of starting vectors", 1, 2, 3) { T<Integer>::run(c, depth, true); }
SCENARIO(strings, "Vector of String: all histories of 25 kinds of operations over two vectors from 5 kinds of starting vectors", 1, 2, 3) { T<String>::run(c, depth, true); }
SCENARIO(deepIntegers, "Vector of Integer: longer histories of add, insert, remove, set, copies and its own elements", 3, 4, 5) { T<Integer>::run(c, depth, false); }
SCENARIO(deepStrings, "Vector of String: longer histories of add, insert, remove, set, copies and its own elements", 3, 4, 5) { T<String>::run(c, depth, false); }
// Growth of the capacity is the documented one: by the increment, or else to twice the capacity, or else to what is needed.
SCENARIO(growth, "capacity of vectors of every kind of construction (in memory filled with 8 patterns) while elements are added", 1, 1, 1) {
    typedef Vector<int> V; static const unsigned char F[] = {0, 1, 2, 3, 0x10, 0x7f, 0x80, 0xff}; unsigned char fill = c.pick(F); int kind = c.choose(8), inc = 0;
    alignas(V) unsigned char room[sizeof(V)]; memset(room, fill, sizeof room); V *v; V model(3, 2); model.add(1); model.add(2); std::initializer_list<int> il = {1, 2, 3}; V plain{1, 2};
    switch (kind) {
        case 0: v = new (room) V(); break; case 1: v = new (room) V(4); break; case 2: v = new (room) V(3, 5); inc = 5; break; case 3: v = new (room) V(0, 1); inc = 1; break;
        case 4: v = new (room) V(il); break; case 5: v = new (room) V(model); inc = -1; break; case 6: v = new (room) V(plain); break; default: v = new (room) V(model.clone()); inc = -1; break;
    }
    c.note([&] { return "construction " + std::to_string(kind) + ", memory filled with " + std::to_string(fill); }); c.state(mc::mix(kind, fill));
    for (int i = 0; i < 40; i++) {
        int before = v->capacity(), n = v->size(); v->add(i); int after = v->capacity(); c.check(after >= n + 1, "capacity below size");
        if (n + 1 <= before) c.eq(after, before, "capacity after an add that needs no more");
        else if (inc == -1) c.check(after == std::max(before + 2, n + 1) || after == std::max(before * 2, n + 1), "capacity grew from " + std::to_string(before) + " to " + std::to_string(after));
        else c.eq(after, std::max(inc > 0 ? before + inc : before * 2, n + 1), "capacity after growing");
    }
    v->~V();
}
SCENARIO(negative, "constructors refuse negative capacities", 1, 1, 1) { int k = -c.range(1, 3); c.state(k); c.check(attempt([&] { Vector<int> v(k); return 0; }).threw, "Vector(negative) was not refused"); c.check(attempt([&] { Vector<int> v(k, 1); return 0; }).threw, "Vector(negative, 1) was not refused"); }
template<class E> void stacks(mc::Ctx &c, int depth) {
    typedef El<E> X; Stack<E> x, y; Ids m, q;
    for (int step = 0; step < depth; step++) {
        int v = step % 3, n = (int)m.size();
        switch (c.choose(7)) {
            case 0: c.note([&] { return "push " + mc::show(X::text(v)); }); c.eq(X::id(x.push(X::make(v))), v, "push()"); m.push_back(v); break;
            case 1: { c.note([] { return "pop"; }); int got = -2; c.eq(refused<EmptyStackException>("EmptyStackException", [&] { got = X::id(x.pop()); }), n == 0, "pop() refused"); if (n) { c.eq(got, m.back(), "pop()"); m.pop_back(); } } break;
            case 2: { c.note([] { return "peek"; }); int got = -2; c.eq(refused<EmptyStackException>("EmptyStackException", [&] { got = X::id(x.peek()); }), n == 0, "peek() refused"); if (n) c.eq(got, m.back(), "peek()"); } break;
            case 3: c.note([] { return "y = x"; }); y = x; q = m; break;
            case 4: c.note([] { return "x = y"; }); x = y; m = q; break;
            case 5: { if (!n) throw mc::Skip(); c.note([] { return "push its own bottom element"; }); x.push(x[0]); m.push_back(int(m[0])); } break;
            default: c.note([] { return "clear"; }); x.clear(); m.clear(); break;
        }
        c.eq((bool)x.empty(), m.empty(), "empty()"); c.eq(x.size(), (int)m.size(), "size()"); c.state(mc::mix(hashIds(m), hashIds(q)));
        for (int u = 0; u < 3; u++) { int g = -1; for (int i = 0; i < (int)m.size(); i++) if (m[i] == u) g = i; c.eq(x.search(X::make(u)), g, "search()"); }
        if (step == depth - 1) { while (!m.empty()) { c.eq(X::id(x.pop()), m.back(), "pop() at the end"); m.pop_back(); } while (!q.empty()) { c.eq(X::id(y.pop()), q.back(), "pop() of the copy at the end"); q.pop_back(); } }
    }
}
SCENARIO(stackIntegers, "Stack of Integer: all histories of push, pop, peek, clear, assignments", 1, 6, 7) { stacks<Integer>(c, depth); }
SCENARIO(stackStrings, "Stack of String: all histories of push, pop, peek, clear, assignments", 1, 6, 7) { stacks<String>(c, depth); }
SCENARIO(stackInts, "Stack of int: all histories of push, pop, peek, clear, assignments", 1, 6, 7) { stacks<int>(c, depth); }
int main(int argc, char **argv) { return mc::main(argc, argv); }
