// Elements of the collection harnesses: three small ids, seen as Integer, String or int.
#pragma once
#include "jn.hpp"
#include "library/Java/Lang/NoSuchElementException/NoSuchElementException.hpp"
#include "library/Java/Util/EmptyStackException/EmptyStackException.hpp"
using namespace jav;
using namespace Java::Lang;
typedef std::vector<int> Ids;

template<class E> struct El;
template<> struct El<Integer> {
    static Integer make(int id) { static const int V[] = {1, 0, -7, 40}; return Integer(V[id]); }
    static int id(const Integer &e) { switch (e.intValue()) { case 1: return 0; case 0: return 1; case -7: return 2; case 40: return 3; } return -1; }
    static std::string text(int id) { static const char *V[] = {"1", "0", "-7", "40"}; return V[id]; }
    static std::string quoted(int id) { return text(id); }
    static const int blank = 1, rank(int id) { static const int R[] = {2, 1, 0, 3}; return R[id]; }   // the id of a default element; the order
};
template<> struct El<String> {
    static const std::string &of(int id) { static const std::string V[] = {"a", "", "[b", "a longer text that is not stored inside the object"}; return V[id]; }
    static String make(int id) { return String(of(id)); }
    static int id(const String &e) { std::string s = S(e); for (int i = 0; i < 4; i++) if (of(i) == s) return i; return -1; }
    static std::string text(int id) { return of(id); }
    static std::string quoted(int id) { return id == 2 ? of(id) : "\"" + of(id) + "\""; }      // texts that begin like a list or map are shown as they are
    static const int blank = 1, rank(int id) { static const int R[] = {2, 0, 1, 3}; return R[id]; }
};
template<> struct El<int> {
    static int make(int id) { static const int V[] = {1, 0, -7, 40}; return V[id]; }
    static int id(int e) { switch (e) { case 1: return 0; case 0: return 1; case -7: return 2; case 40: return 3; } return -1; }
    static std::string text(int id) { return std::to_string(make(id)); }
    static const int blank = 1, rank(int id) { static const int R[] = {2, 1, 0, 3}; return R[id]; }
};
inline uint64_t hashIds(const Ids &m, uint64_t h = 1) { for (int i : m) h = mc::mix(h, i + 1); return mc::mix(h, m.size()); }
template<class E> std::string idsText(const Ids &m) { std::string s = "["; for (size_t i = 0; i < m.size(); i++) s += (i ? ", " : "") + mc::show(El<E>::text(m[i])); return s + "]"; }
template<class E> Ids idsOf(const Array<E> &a) { Ids r; for (int i = 0; i < (int)a.length; i++) r.push_back(El<E>::id(a.get(i))); return r; }
template<class X, class F> auto refused(const char *name, F f) -> bool {   // true when f threw X; another exception is a violation
    auto r = attemptAs<X>(name, [&] { f(); return 0; });
    if (r.threw && r.type != name) throw mc::Violation{"threw " + r.type + " instead of " + name};
    return r.threw;
}
// positions: the boundaries and the middle, and -1, n, n+1 when invalid ones are wanted
inline int position(mc::Ctx &c, int n, bool invalid, int last) {   // last = greatest valid position
    std::vector<int> v; for (int i = 0; i <= last; i++) if (i <= 1 || i >= last - 1 || i == last / 2) v.push_back(i);
    if (invalid) { v.push_back(-1); v.push_back(last + 1); }
    if (v.empty()) throw mc::Skip();
    return c.pick(v);
}
