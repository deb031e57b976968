// N03: the number classes as values: after every history of operators, value, text, stream output, order, equality
// and hash code of an object are those of the number the history defines.
#include "num_common.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
using namespace jav;
using namespace Java::Lang;

struct TInteger { typedef Integer B; typedef int V; static const bool real = false; static const std::vector<long> &dom() { return edges(32); } static V value(B &b) { return b.intValue(); } static std::string text(V v) { return std::to_string(v); } };
struct TLong { typedef Long B; typedef long V; static const bool real = false; static const std::vector<long> &dom() { return edges(64); } static V value(B &b) { return b.longValue(); } static std::string text(V v) { return std::to_string(v); } };
struct TShort { typedef Short B; typedef short V; static const bool real = false; static const std::vector<long> &dom() { return edges(16); } static V value(B &b) { return b.shortValue(); } static std::string text(V v) { return std::to_string(v); } };
struct TBytes { typedef Bytes B; typedef byte V; static const bool real = false; static const std::vector<long> &dom() { static std::vector<long> d{0, 1, 2, 3, 7, 15, 16, 100, 127, 128, 129, 200, 254, 255}; return d; } static V value(B &b) { return b.byteValue(); } static std::string text(V v) { return std::to_string((int)v); } };
static std::string fmt(const char *f, double v) { char b[400]; snprintf(b, 400, f, v); return b; }
struct TFloat { typedef Float B; typedef float V; static const bool real = true; static const std::vector<float> &dom() { return someReals<float>(); } static V value(B &b) { return b.floatValue(); } static std::string text(V v) { return fmt("%g", v); } };
struct TDouble { typedef Double B; typedef double V; static const bool real = true; static const std::vector<double> &dom() { return someReals<double>(); } static V value(B &b) { return b.doubleValue(); } static std::string text(V v) { return fmt("%.15f", v); } };

template<class V> bool isNan(V v) { return v != v; }
// a sign of NaN is not observable by value, but printf shows it
template<class T> void look(mc::Ctx &c, typename T::B &b, typename T::V m, const char *what) {
    typedef typename T::V V; V v = T::value(b);
    c.checkf(same(v, m), [&] { return std::string(what) + ": value " + mc::show(v) + ", expected " + mc::show(m); });
    std::string t = S(b.toString()), w = T::text(m);
    if (isNan(m)) { c.check(t == "nan" || t == "-nan", std::string(what) + ": text of NaN is " + t); return; }
    c.checkf(t == w, [&] { return std::string(what) + ": text " + mc::show(t) + ", expected " + mc::show(w); });
}
// n = the natural result of the operator, on the type's own arithmetic with wrap-around; zero division throws
template<class V> struct Res { bool thrown; V v; };
template<class T> Res<typename T::V> calc(int op, typename T::V a, typename T::V b, std::true_type) {
    switch (op) { case 0: return {false, a + b}; case 1: return {false, a - b}; case 2: return {false, a * b}; default: return {false, a / b}; }
}
template<class T> Res<typename T::V> calc(int op, typename T::V a, typename T::V b, std::false_type) {
    typedef typename T::V V; __int128 x = a, y = b;
    switch (op) {
        case 0: return {false, (V)(x + y)}; case 1: return {false, (V)(x - y)}; case 2: return {false, (V)(x * y)};
        case 3: if (!y) return {true, 0}; return {false, (V)(x / y)};
        default: if (!y) return {true, 0}; return {false, (V)(x % y)};
    }
}
template<class B> B bin(int op, B &a, const B &b, std::false_type) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; default: return a % b; } }
template<class B> B bin(int op, B &a, const B &b, std::true_type) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
template<class B> void comp(int op, B &a, const B &b, std::false_type) { switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; case 3: a /= b; break; default: a %= b; break; } }
template<class B> void comp(int op, B &a, const B &b, std::true_type) { switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; default: a /= b; break; } }
template<> void comp<Short>(int op, Short &a, const Short &b, std::false_type) { a = bin(op, a, b, std::false_type()); }   // Short declares += and the like but does not define them

template<class V> int order(V a, V b) { if (isNan(a) || isNan(b)) return isNan(a) - isNan(b); return a < b ? -1 : a > b ? 1 : 0; }
static int sgn(int x) { return (x > 0) - (x < 0); }
static void compares(mc::Ctx &c, Integer &a, Integer &b, int o) { c.eq(a.compareTo(b), o, "compareTo"); c.eq((bool)a.equals(b), o == 0, "equals"); c.eq(Integer::compare(a.intValue(), b.intValue()), o, "compare"); }
static void compares(mc::Ctx &c, Long &a, Long &b, int o) { c.eq(a.compareTo(b), o, "compareTo"); c.eq((bool)a.equals(b), o == 0, "equals"); c.eq(Long::compare(a.longValue(), b.longValue()), o, "compare"); }
static void compares(mc::Ctx &c, Short &a, Short &b, int o) {}
static void compares(mc::Ctx &c, Bytes &a, Bytes &b, int o) { c.eq(sgn(a.compareTo(b)), o, "compareTo"); c.eq((bool)a.equals(b), o == 0, "equals"); c.eq(sgn(Bytes::compare(a.byteValue(), b.byteValue())), o, "compare"); }
static void compares(mc::Ctx &c, Float &a, Float &b, int o) { c.eq(a.compareTo(b), o, "compareTo"); c.eq((bool)a.equals(b), o == 0, "equals"); c.eq(Float::compare(a.floatValue(), b.floatValue()), o, "compare"); if (o == 0) c.eq(a.hashCode(), b.hashCode(), "hashCode of equal objects"); }
static void compares(mc::Ctx &c, Double &a, Double &b, int o) { c.eq(a.compareTo(b), o, "compareTo"); c.eq((bool)a.equals(b), o == 0, "equals"); c.eq(Double::compare(a.doubleValue(), b.doubleValue()), o, "compare"); if (o == 0) c.eq(a.hashCode(), b.hashCode(), "hashCode of equal objects"); }

template<class T> void compareAll(mc::Ctx &c, typename T::B &a, typename T::B &b, typename T::V x, typename T::V y) {
    int o = order(x, y);
    c.eq((bool)(a == b), o == 0, "=="); c.eq((bool)(a != b), o != 0, "!="); c.eq((bool)(a < b), o < 0, "<"); c.eq((bool)(a > b), o > 0, ">"); c.eq((bool)(a <= b), o <= 0, "<="); c.eq((bool)(a >= b), o >= 0, ">=");
    compares(c, a, b, o);
    if (o == 0) c.eq(std::hash<typename T::B>()(a), std::hash<typename T::B>()(b), "std::hash of equal objects");
}
static const char *OPS[] = {"+", "-", "*", "/", "%"};
template<class T> void pairs(mc::Ctx &c) {
    typedef typename T::B B; typedef typename T::V V; std::integral_constant<bool, T::real> real;
    V x = (V)c.pick(T::dom()), y = (V)c.pick(T::dom());
    c.note([&] { return mc::show(x) + " and " + mc::show(y); }); c.state(mc::mix(mc::hashStr(mc::show(x)), mc::hashStr(mc::show(y))));
    B a((V)x), b((V)y); look<T>(c, a, x, "constructor"); B k(a); look<T>(c, k, x, "copy"); compareAll<T>(c, a, b, x, y); compareAll<T>(c, a, a, x, x);
    for (int op = 0; op < (T::real ? 4 : 5); op++) {
        auto w = calc<T>(op, x, y, real); std::string name = std::string("a ") + OPS[op] + " b";
        bool thrown = false; try { B r(bin(op, a, b, real)); if (!w.thrown) look<T>(c, r, w.v, name.c_str()); } catch (ArithmeticException &) { thrown = true; }
        c.check(thrown == w.thrown, name + (thrown ? " threw ArithmeticException" : " did not throw ArithmeticException"));
        B d((V)x); thrown = false; try { comp(op, d, b, real); } catch (ArithmeticException &) { thrown = true; }
        c.check(thrown == w.thrown, name + "= threw or did not throw wrongly"); look<T>(c, d, w.thrown ? x : w.v, (name + "=").c_str());
        look<T>(c, a, x, "left operand afterwards"); look<T>(c, b, y, "right operand afterwards");
    }
}
// Histories over two objects: assignments, copies, compound and binary operators, also with the object itself.
template<class T> void histories(mc::Ctx &c, int depth, bool wide) {
    typedef typename T::B B; typedef typename T::V V; std::integral_constant<bool, T::real> real;
    static const std::vector<V> K = T::real ? std::vector<V>{(V)3, (V)0, (V)-0.5, (V)7.25} : std::vector<V>{(V)3, (V)0, (V)-1, (V)std::numeric_limits<V>::max()};
    B o[2] = {B((V)K[0]), B((V)K[3])}; V m[2] = {K[0], K[3]}; int nops = T::real ? 4 : 5;
    for (int i = 0; i < depth; i++) {
        int k = c.choose(2), j = c.choose(2), op = c.choose(nops + (wide ? nops + 4 : 2));
        if (op < nops) {
            auto w = calc<T>(op, m[k], m[j], real); c.note([&] { return std::string("xy"[k] + std::string(" ") + OPS[op] + "= " + "xy"[j]); });
            bool t = false; try { comp(op, o[k], o[j], real); } catch (ArithmeticException &) { t = true; }
            c.check(t == w.thrown, "compound assignment threw or did not throw wrongly"); if (!t) m[k] = w.v;
        } else if (op == nops) { c.note([&] { return std::string(1, "xy"[k]) + " = " + "xy"[j]; }); o[k] = o[j]; m[k] = m[j]; }
        else if (op == nops + 1) { V v = c.pick(K); c.note([&] { return std::string(1, "xy"[k]) + " = " + mc::show(v); }); o[k] = B((V)v); m[k] = v; }
        else if (op == nops + 2) { c.note([&] { return std::string(1, "xy"[k]) + " = copy of a copy of " + "xy"[j]; }); B t1(o[j]); B t2(t1); t1 = B((V)K[1]); o[k] = t2; m[k] = m[j]; }
        else if (op == nops + 3) { c.note([&] { return std::string("text, hash and order of ") + "xy"[k]; }); (void)o[k].toString(); (void)std::hash<B>()(o[k]); }
        else {
            int p = op - nops - 4; auto w = calc<T>(p, m[0], m[j], real); c.note([&] { return std::string(1, "xy"[k]) + " = x " + OPS[p] + " " + "xy"[j]; });
            bool t = false; try { o[k] = bin(p, o[0], o[j], real); } catch (ArithmeticException &) { t = true; }
            c.check(t == w.thrown, "operator threw or did not throw wrongly"); if (!t) m[k] = w.v;
        }
        look<T>(c, o[0], m[0], "x"); look<T>(c, o[1], m[1], "y"); compareAll<T>(c, o[0], o[1], m[0], m[1]);
        c.state(mc::mix(mc::hashStr(mc::show(m[0])), mc::hashStr(mc::show(m[1]))));
    }
}
#define TYPE(T, N, D) SCENARIO(pairs##N, #N ": all operators and comparisons of all pairs of boundary values", 1, 1, 1) { pairs<T>(c); } \
    SCENARIO_NOLEAK(histories##N, #N ": all histories of operators over two objects", 1, 2, 3) { histories<T>(c, depth, true); } \
    SCENARIO(deep##N, #N ": longer histories of assignments and compound assignments", 3, D, D + 1) { histories<T>(c, depth, false); }
TYPE(TInteger, Integer, 4) TYPE(TLong, Long, 4) TYPE(TShort, Short, 3) TYPE(TBytes, Bytes, 4) TYPE(TFloat, Float, 3) TYPE(TDouble, Double, 3)
SCENARIO(streams, "stream output of Integer, Long, Short shows the value on the stream it is given", 1, 1, 1) {
    long v = c.pick(edges(64)); std::ostringstream a, b, s; a << Integer((int)v); b << Long(v); s << Short((short)v);
    c.eq(a.str(), std::to_string((int)v), "Integer <<"); c.eq(b.str(), std::to_string(v), "Long <<"); c.eq(s.str(), std::to_string((short)v), "Short <<"); c.state(v);
}
SCENARIO(defaults, "objects without a value are zero", 1, 1, 1) {
    Integer i; look<TInteger>(c, i, 0, "Integer"); Long l; look<TLong>(c, l, 0, "Long"); Short s; look<TShort>(c, s, 0, "Short"); Bytes b; look<TBytes>(c, b, 0, "Bytes"); Float f; look<TFloat>(c, f, 0, "Float"); Double d; look<TDouble>(c, d, 0, "Double");
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
