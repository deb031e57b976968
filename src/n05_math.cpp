// N05: Math: exact arithmetic, floor division, comparison, rounding, neighbours, exponents, scaling.
// Oracles: 128 bit integers, the definitions of floor and nearest integer, exact arithmetic on the binary encoding,
// and the C library (with a tolerance) for the transcendental functions.
#include "num_common.hpp"
#include "library/Java/Lang/Math/Math.hpp"
using namespace jav;
using namespace Java::Lang;
typedef __int128 wide;
#define EXC(e) attemptAs<ArithmeticException>("ArithmeticException", [&] { return e; })
template<class V> Out<V> fits(wide x) { return x < (wide)std::numeric_limits<V>::min() || x > (wide)std::numeric_limits<V>::max() ? thrown<V>("ArithmeticException") : ret<V>((V)x); }
static wide floorDiv(wide a, wide b) { wide q = a / b; if (q * b != a && (a < 0) != (b < 0)) q--; return q; }

template<class V> void integers(mc::Ctx &c, V a, V b) {
    c.note([&] { return mc::show(a) + " and " + mc::show(b); }); c.state(mc::mix(mc::mix(sizeof(V), a), b)); wide x = a, y = b;
    c.eq(EXC(Math::addExact(a, b)), fits<V>(x + y), "addExact"); c.eq(EXC(Math::subtractExact(a, b)), fits<V>(x - y), "subtractExact"); c.eq(EXC(Math::multiplyExact(a, b)), fits<V>(x * y), "multiplyExact");
    c.eq(EXC(Math::floorDiv(a, b)), y ? ret<V>((V)floorDiv(x, y)) : thrown<V>("ArithmeticException"), "floorDiv"); c.eq(EXC(Math::floorMod(a, b)), y ? ret<V>((V)(x - floorDiv(x, y) * y)) : thrown<V>("ArithmeticException"), "floorMod");
    c.eq(Math::max(a, b), a > b ? a : b, "max"); c.eq(Math::min(a, b), a < b ? a : b, "min");
    c.eq(EXC(Math::negateExact(a)), fits<V>(-x), "negateExact"); c.eq(EXC(Math::incrementExact(a)), fits<V>(x + 1), "incrementExact"); c.eq(EXC(Math::decrementExact(a)), fits<V>(x - 1), "decrementExact"); c.eq(Math::abs(a), (V)(x < 0 ? -x : x), "abs");
}
SCENARIO(ints, "exact arithmetic, floor division, extremes of all pairs of boundary ints", 1, 1, 1) { integers<int>(c, (int)c.pick(edges(32)), (int)c.pick(edges(32))); }
SCENARIO(longs, "exact arithmetic, floor division, extremes of all pairs of boundary longs", 1, 1, 1) { integers<long>(c, c.pick(edges(64)), c.pick(edges(64))); }
SCENARIO(smallInts, "the same for all pairs of -70..70", 1, 1, 1) { int a = c.range(-70, 70); for (int b = -70; b <= 70; b++) { integers<int>(c, a, b); integers<long>(c, a, b); } }
SCENARIO(products, "multiplyExact of pairs of words with one or two bits set and their neighbours, around overflow", 1, 1, 1) {
    int p = c.range(0, 62), q = c.range(0, 62); if (p + q < 28) throw mc::Skip(); int d = c.range(-1, 1), e = c.range(-1, 1); bool n1 = c.flip(), n2 = c.flip();
    long a = (1l << p) + d, b = (1l << q) + e; if (n1) a = -a; if (n2) b = -b; c.state(mc::mix(a, b)); c.note([&] { return mc::show(a) + " * " + mc::show(b); });
    c.eq(EXC(Math::multiplyExact(a, b)), fits<long>((wide)a * b), "multiplyExact(long)"); if (p < 31 && q < 31) c.eq(EXC(Math::multiplyExact((int)a, (int)b)), fits<int>((wide)(int)a * (int)b), "multiplyExact(int)");
}
SCENARIO(narrowing, "toIntExact of all boundary longs and all words with up to three bits set", 1, 1, 1) { long v = c.flip() ? (long)word(c, 64) : c.pick(edges(64)) ; c.note([&] { return mc::show(v); }); c.state(v); c.eq(EXC(Math::toIntExact(v)), fits<int>(v), "toIntExact"); }

// nearest integers of a finite value whose magnitude is below 2^62: both for a tie
template<class F, class I> void rounding(mc::Ctx &c, F d) {
    c.note([&] { return mc::show(d); }); c.state(mc::mix(sizeof(F), rawBits(d)));
    I r = Math::round(d); const I lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
    if (d != d) c.eq(r, (I)0, "round(NaN)");
    else if (d <= (F)lo) c.eq(r, lo, "round of a value not above the least integer"); else if (d >= (F)hi) c.eq(r, hi, "round of a value not below the greatest integer");
    else { long double x = (long double)d - (long double)r; c.check(x >= -0.5L && x <= 0.5L, "round(" + mc::show(d) + ") is " + mc::show(r)); if (x == 0.5L || x == -0.5L) c.outcome(1); }
    // floor, ceil and rint of the value as double
    double v = d, f = Math::floor(v), g = Math::ceil(v), n = Math::rint(v);
    if (v != v) { c.check(f != f && g != g && n != n, "floor, ceil or rint of NaN"); return; }
    if (std::isinf(v) || std::fabs(v) >= 4503599627370496.0) { c.check(f == v && g == v && n == v, "floor, ceil or rint of an integer or infinity"); return; }
    long fl = (long)v; if ((double)fl > v) fl--; long ce = (double)fl == v ? fl : fl + 1;
    c.eq(f, (double)fl, "floor"); c.eq(g, (double)ce, "ceil"); double lowHalf = v - fl; long ri = lowHalf < 0.5 ? fl : lowHalf > 0.5 ? ce : (fl % 2 == 0 ? fl : ce); c.eq(n, (double)ri, "rint");
    c.check(std::signbit(f) == (fl ? fl < 0 : std::signbit(v)) , "sign of floor"); c.check(std::signbit(g) == (ce ? ce < 0 : (v < 0 || std::signbit(v))), "sign of ceil");
}
SCENARIO(roundDoubles, "round, floor, ceil, rint of every sign and exponent of double x 7 significands", 1, 1, 1) { rounding<double, long>(c, anyDouble(c)); }
SCENARIO(roundFloats, "round of every sign and exponent of float x 8 significands", 1, 1, 1) { rounding<float, int>(c, anyFloat(c)); }
SCENARIO(quarters, "round, floor, ceil, rint of all multiples of 1/8 from -64 to 64, and their neighbours, also next to 2^23, 2^31, 2^52, 2^53, 2^62", 1, 1, 1) {
    static const double B[] = {0, 8388608, 16777216, 2147483648.0, 1125899906842624.0, 2251799813685248.0, 4503599627370496.0, 9007199254740992.0, 4611686018427387904.0}; double b = c.pick(B); int k = c.range(-512, 512); bool neg = c.flip();
    double d = b + k / 8.0; if (neg) d = -d; for (double x : {d, std::nextafter(d, INFINITY), std::nextafter(d, -INFINITY)}) { rounding<double, long>(c, x); float f = (float)x; rounding<float, int>(c, f); rounding<float, int>(c, std::nextafter(f, INFINITY)); rounding<float, int>(c, std::nextafter(f, -INFINITY)); }
}
template<class F> F up(F d) { return std::nextafter(d, std::numeric_limits<F>::infinity()); }
template<class F> void shape(mc::Ctx &c, F d, int minE, int maxE, int prec) {
    typedef std::numeric_limits<F> L; c.note([&] { return mc::show(d); }); c.state(mc::mix(sizeof(F) + 100, rawBits(d)));
    bool nan = d != d, inf = std::isinf(d); F m = std::fabs(d);
    int e = nan || inf ? maxE + 1 : m < L::min() ? minE - 1 : 0; if (!nan && !inf && m >= L::min()) { std::frexp(m, &e); e--; }
    c.eq(Math::getExponent(d), e, "getExponent"); c.check(same((F)Math::abs(d), nan ? d : m), "abs");
    F sg = Math::signum(d); c.check(nan ? sg != sg : sg == (F)(d > 0 ? 1 : d < 0 ? -1 : 0), "signum");
    for (F s : {(F)1, (F)-1, (F)0, -(F)0, L::infinity(), -(F)3}) { F r = Math::copySign(d, s); c.check(nan ? r != r : (std::fabs(r) == m && std::signbit(r) == std::signbit(s)), "copySign"); }
    F u = Math::nextUp(d), w = Math::nextDown(d);
    if (nan) c.check(u != u && w != w, "neighbours of NaN");
    else {
        c.check(u == (d == L::infinity() ? d : up(d)), "nextUp is " + mc::show(u));
        // nextDown of zero is documented as the library's smallest value
        c.check(w == (d == -L::infinity() ? d : d == 0 ? -(F)L::min() : -up(-d)), "nextDown is " + mc::show(w));
        for (F t : {(F)0, -L::infinity(), L::infinity(), (F)1, d}) { F r = Math::nextAfter(d, (double)t), x = t > d ? up(d) : t < d ? -up(-d) : t; c.check(r == x, "nextAfter towards " + mc::show(t) + " is " + mc::show(r)); }
    }
    // ulp: the distance to the next number; 0 has the library's smallest value
    F ul = Math::ulp(d); if (nan) c.check(ul != ul, "ulp(NaN)"); else { F x = inf ? L::infinity() : d == 0 ? L::min() : std::ldexp((F)1, std::max(e, minE) - prec + 1); c.check(ul == x, "ulp is " + mc::show(ul) + ", expected " + mc::show(x)); }
    static const int SC[] = {0, 1, -1, 10, -10, 52, -60, 127, -127, 300, -300, 1023, -1075, 2200, -2200};
    for (int k : SC) { F r = Math::scalb(d, k); c.check(same(r, std::ldexp(d, k)), "scalb by " + std::to_string(k)); }
}
SCENARIO(shapeDoubles, "getExponent, ulp, neighbours, signum, copySign, scalb of every sign and exponent of double x 7 significands", 1, 1, 1) { shape<double>(c, anyDouble(c), -1022, 1023, 53); }
SCENARIO(shapeFloats, "the same of float x 8 significands", 1, 1, 1) { shape<float>(c, anyFloat(c), -126, 127, 24); }
SCENARIO(extremesReal, "max, min of all pairs of boundary reals", 1, 1, 1) {
    double x = c.pick(someReals<double>()), y = c.pick(someReals<double>()); if (x != x || y != y) throw mc::Skip(); c.state(mc::mix(rawBits(x), rawBits(y)));
    c.check(Math::max(x, y) == (x > y ? x : y), "max(double)"); c.check(Math::min(x, y) == (x < y ? x : y), "min(double)"); float a = (float)x, b = (float)y; c.check(Math::max(a, b) == (a > b ? a : b), "max(float)"); c.check(Math::min(a, b) == (a < b ? a : b), "min(float)");
}
static bool close(double a, double b) { if (same(a, b)) return true; return std::fabs(a - b) <= 1e-13 * std::fabs(b) + 1e-300; }
#define LIKE(f) do { double r_ = Math::f(x), w_ = ::f(x); c.check(close(r_, w_) && (w_ != 0 || w_ != w_ || std::signbit(r_) == std::signbit(w_)), std::string(#f "(") + mc::show(x) + ") is " + mc::show(r_)); } while (0)
SCENARIO(functions, "elementary functions agree with the C library on every multiple of 1/16 up to 40 and on all boundary values", 1, 1, 1) {
    double x = c.flip() ? c.pick(someReals<double>()) : c.range(-640, 640) / 16.0; c.note([&] { return mc::show(x); }); c.state(rawBits(x));
    LIKE(sin); LIKE(cos); LIKE(tan); LIKE(asin); LIKE(acos); LIKE(atan); LIKE(sinh); LIKE(cosh); LIKE(tanh); LIKE(exp); LIKE(expm1); LIKE(log); LIKE(log10); LIKE(log1p); LIKE(sqrt); LIKE(cbrt);
    c.check(close(Math::toDegrees(x), x * 180.0 / 3.14159265358979323846), "toDegrees"); c.check(close(Math::toRadians(x), x / 180.0 * 3.14159265358979323846), "toRadians");
}
SCENARIO(functions2, "pow, atan2, hypot, IEEERemainder of all pairs of boundary values and of small multiples of 1/4", 1, 1, 1) {
    double x, y; if (c.flip()) { x = c.pick(someReals<double>()); y = c.pick(someReals<double>()); } else { x = c.range(-40, 40) / 4.0; y = c.range(-40, 40) / 4.0; }
    c.note([&] { return mc::show(x) + " and " + mc::show(y); }); c.state(mc::mix(rawBits(x), rawBits(y)));
    c.check(close(Math::pow(x, y), ::pow(x, y)), "pow"); c.check(close(Math::atan2(x, y), ::atan2(x, y)), "atan2"); c.check(close(Math::hypot(x, y), ::hypot(x, y)), "hypot");
    if (!std::isinf(y)) { double r = Math::IEEERemainder(x, y), w = ::remainder(x, y); c.check(same(r, w), "IEEERemainder is " + mc::show(r)); }   // the existing tests fix NaN for an infinite divisor
}
SCENARIO(random, "random() lies in [0, 1)", 1, 1, 1) { int n = c.range(0, 49); c.state(n); double r = Math::random(); c.check(r >= 0 && r < 1, "random() is " + mc::show(r)); }
int main(int argc, char **argv) { return mc::main(argc, argv); }
