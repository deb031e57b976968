// N04: Float and Double: bits, total order, hash, classification, text and parsing.
// Oracles: the IEEE 754 encoding (the order of the bit images has to be the order of the numbers), a hand written
// recogniser of decimal numerals, the C library's conversions for the value of an accepted numeral.
#include "num_common.hpp"
#include "library/Java/Lang/NumberFormatException/NumberFormatException.hpp"
using namespace jav;
using namespace Java::Lang;

// The image of a number is its distance from zero in representable steps, with the number's sign; NaN is the largest image.
static long imageOf(double d) { if (d != d) return LONG_MAX; long m = (long)(rawBits(d) & LONG_MAX); return d < 0 ? -m : m; }
static int imageOf(float d) { if (d != d) return INT_MAX; int m = (int)(rawBits(d) & INT_MAX); return d < 0 ? -m : m; }
static std::string fmt(const char *f, double v) { char b[400]; snprintf(b, 400, f, v); return b; }
static bool nanText(const std::string &s) { return s == "nan" || s == "-nan"; }

static void oneDouble(mc::Ctx &c, double d) {
    c.note([&] { return "double " + mc::show(d) + " " + HEX(rawBits(d)); }); c.state(rawBits(d)); long im = imageOf(d); bool nan = d != d, inf = d == INFINITY || d == -INFINITY;
    c.eq(Double::doubleToLongBits(d), im, "doubleToLongBits"); c.eq(Double::doubleToRawLongBits(d), im, "doubleToRawLongBits");
    c.check(same(Double::longBitsToDouble(im), d), "longBitsToDouble(doubleToLongBits(x)) is not x");
    c.eq(Double::hashCode(d), im ^ im >> 32, "hashCode(value)"); Double o(d); c.eq(o.hashCode(), im ^ im >> 32, "hashCode()"); c.eq(std::hash<Double>()(o), std::hash<Double>()(Double(d)), "std::hash");
    c.eq((bool)Double::isNaN(d), nan, "isNaN(value)"); c.eq((bool)o.isNaN(), nan, "isNaN()"); c.eq((bool)Double::isInfinite(d), inf, "isInfinite(value)"); c.eq((bool)o.isInfinite(), inf, "isInfinite()"); c.eq((bool)Double::isFinite(d), !nan && !inf, "isFinite");
    std::string t = S(o.toString()), w = fmt("%.15f", d); c.check(nan ? nanText(t) : t == w, "toString() is " + t + ", expected " + w); if (!nan) c.eq(o.charValue(), w[0], "charValue");
    c.check(same(o.doubleValue(), d) && same(o.floatValue(), (float)d), "doubleValue or floatValue");
    if (std::fabs(d) < 30000) { c.eq(o.shortValue(), (short)d, "shortValue"); c.eq(o.intValue(), (int)d, "intValue"); c.eq(o.longValue(), (long)d, "longValue"); } if (d >= 0 && d < 256) c.eq((int)o.byteValue(), (int)d, "byteValue");
    Double p = Double::valueOf(d); c.check(same(p.doubleValue(), d), "valueOf(value)");
    char hx[64]; snprintf(hx, 64, "%.17g", d); if (!nan) c.check(same(Double::parseDouble(String(hx)).doubleValue(), d) && same(Double::valueOf(String(hx)).doubleValue(), d), std::string("parseDouble of the 17 digits ") + hx);
}
static void oneFloat(mc::Ctx &c, float d) {
    c.note([&] { return "float " + mc::show(d) + " " + HEX(rawBits(d)); }); c.state(mc::mix(7, rawBits(d))); int im = imageOf(d); bool nan = d != d, inf = d == INFINITY || d == -INFINITY;
    c.eq(Float::floatToIntBits(d), im, "floatToIntBits"); c.eq(Float::floatToRawIntBits(d), im, "floatToRawIntBits"); c.check(same(Float::intBitsToFloat(im), d), "intBitsToFloat(floatToIntBits(x)) is not x");
    c.eq(Float::hashCode(d), im, "hashCode(value)"); Float o(d); c.eq(o.hashCode(), im, "hashCode()"); c.eq(std::hash<Float>()(o), std::hash<Float>()(Float(d)), "std::hash");
    c.eq((bool)Float::isNaN(d), nan, "isNaN(value)"); c.eq((bool)o.isNaN(), nan, "isNaN()"); c.eq((bool)Float::isInfinite(d), inf, "isInfinite(value)"); c.eq((bool)o.isInfinite(), inf, "isInfinite()"); c.eq((bool)Float::isFinite(d), !nan && !inf, "isFinite");
    std::string t = S(o.toString()), w = fmt("%g", d); c.check(nan ? nanText(t) : t == w, "toString() is " + t + ", expected " + w);
    c.check(same(o.doubleValue(), (double)d) && same(o.floatValue(), d), "doubleValue or floatValue");
    if (std::fabs(d) < 30000) { c.eq(o.shortValue(), (short)d, "shortValue"); c.eq(o.intValue(), (int)d, "intValue"); c.eq(o.longValue(), (long)d, "longValue"); } if (d >= 0 && d < 256) c.eq((int)o.byteValue(), (int)d, "byteValue");
    Float p = Float::valueOf(d); c.check(same(p.floatValue(), d), "valueOf(value)");
    char hx[64]; snprintf(hx, 64, "%.9g", d); if (!nan) c.check(same(Float::parseFloat(String(hx)).floatValue(), d) && same(Float::valueOf(String(hx)).floatValue(), d) && same(Float(String(hx)).floatValue(), d), std::string("parseFloat of the 9 digits ") + hx);
}
SCENARIO(doubles, "every sign and exponent of double x 7 significands", 1, 1, 1) { oneDouble(c, anyDouble(c)); }
SCENARIO(floats, "every sign and exponent of float x 8 significands", 1, 1, 1) { oneFloat(c, anyFloat(c)); }
SCENARIO(denseFloats, "every float whose upper 16 bits vary (bfloat16 grid), with lower halves 0, 1, 0x8000, 0xffff", 1, 1, 1) {
    unsigned hi = c.range(0, 255); static const unsigned L[] = {0, 1, 0x8000, 0xffff}; unsigned lo = c.pick(L); for (unsigned m = 0; m < 256; m++) oneFloat(c, flt(hi << 24 | m << 16 | lo)); }
SCENARIO(images, "longBitsToDouble and intBitsToFloat of every image next to a power of two or a limit give the number with that image", 1, 1, 1) {
    long im = c.pick(edges(64)); double d = Double::longBitsToDouble(im); c.note([&] { return HEX(im); }); c.state(im);
    if (im <= 0x7ff0000000000000l && im >= -0x7ff0000000000000l) { c.check(d == d, "an image within the infinities is NaN"); c.eq(imageOf(d), im, "image of longBitsToDouble(image)"); }
    int i = (int)c.pick(edges(32)); float f = Float::intBitsToFloat(i); if (i <= 0x7f800000 && i >= -0x7f800000) { c.check(f == f, "an image within the infinities is NaN"); c.eq(imageOf(f), i, "image of intBitsToFloat(image)"); }
}
template<class F> int order(F a, F b) { if (a != a || b != b) return (a != a) - (b != b); return a < b ? -1 : a > b ? 1 : 0; }
template<class B, class F> void pair(mc::Ctx &c, F x, F y) {
    c.note([&] { return mc::show(x) + " and " + mc::show(y); }); c.state(mc::mix(rawBits(x), rawBits(y))); int o = order(x, y);
    B a((F)x), b((F)y); c.eq(B::compare(x, y), o, "compare"); c.eq(a.compareTo(b), o, "compareTo"); c.eq((bool)a.equals(b), o == 0, "equals"); c.eq((bool)(a == b), o == 0, "=="); c.eq((bool)(a < b), o < 0, "<"); c.eq((bool)(a >= b), o >= 0, ">=");
    if (o == 0) { c.eq(a.hashCode(), b.hashCode(), "hashCode of equal objects"); c.eq(std::hash<B>()(a), std::hash<B>()(b), "std::hash of equal objects"); }
    if (x == x && y == y) { c.eq(B::min(x, y), x < y ? x : y, "min"); c.eq((bool)(a && b), x && y, "&&"); c.eq((bool)(a || b), x || y, "||"); }
}
SCENARIO(pairsDouble, "order, equality, hash of all pairs of boundary doubles and all neighbours", 1, 1, 1) { if (c.flip()) pair<Double, double>(c, c.pick(someReals<double>()), c.pick(someReals<double>())); else { double d = anyDouble(c); pair<Double, double>(c, d, std::nextafter(d, INFINITY)); pair<Double, double>(c, -d, d); } }
SCENARIO(pairsFloat, "order, equality, hash of all pairs of boundary floats and all neighbours", 1, 1, 1) { if (c.flip()) pair<Float, float>(c, c.pick(someReals<float>()), c.pick(someReals<float>())); else { float d = anyFloat(c); pair<Float, float>(c, d, std::nextafter(d, INFINITY)); pair<Float, float>(c, -d, d); } }

// blanks [sign] (digits [. digits*] | . digits) [e [sign] digits] blanks
static bool numeral(const std::string &s) {
    size_t i = 0, n = s.size(); auto blank = [&] { while (i < n && strchr(" \t\n\v\f\r", s[i]) && s[i]) i++; }; auto dig = [&] { size_t k = i; while (i < n && s[i] >= '0' && s[i] <= '9') i++; return i > k; };
    blank(); if (i < n && (s[i] == '-' || s[i] == '+')) i++;
    bool a = dig(), b = false; if (i < n && s[i] == '.') { i++; b = dig(); } if (!a && !b) return false;
    if (i < n && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < n && (s[i] == '-' || s[i] == '+')) i++; if (!dig()) return false; }
    blank(); return i == n;
}
static void parseBoth(mc::Ctx &c, const std::string &s) {
    c.note([&] { return "text " + mc::show(s); }); c.state(mc::hashStr(s)); bool ok = numeral(s);
    auto d = ok ? ret<double>(strtod(s.c_str(), nullptr)) : thrown<double>("NumberFormatException"); auto f = ok ? ret<float>(strtof(s.c_str(), nullptr)) : thrown<float>("NumberFormatException"); String t = J(s);
    c.eq(attemptAs<NumberFormatException>("NumberFormatException", [&] { return Double::parseDouble(t).doubleValue(); }), d, "parseDouble"); c.eq(attemptAs<NumberFormatException>("NumberFormatException", [&] { return Double::valueOf(t).doubleValue(); }), d, "Double.valueOf(text)");
    c.eq(attemptAs<NumberFormatException>("NumberFormatException", [&] { return Float::parseFloat(t).floatValue(); }), f, "parseFloat"); c.eq(attemptAs<NumberFormatException>("NumberFormatException", [&] { return Float::valueOf(t).floatValue(); }), f, "Float.valueOf(text)");
    c.eq(attemptAs<NumberFormatException>("NumberFormatException", [&] { return Float(t).floatValue(); }), f, "Float(text)");
}
SCENARIO(texts, "every text over {1, 0, 5, ., -, +, e, blank, z, NUL}", 3, 6, 6) { int n = c.range(0, depth); std::string s; for (int i = 0; i < n; i++) s += std::string("105.-+e z\0", 10)[c.choose(10)]; parseBoth(c, s); }
SCENARIO(longTexts, "numerals of 1 to 400 digits with the point at several places and exponents around the limits", 1, 1, 1) {
    static const int N[] = {1, 2, 9, 10, 16, 17, 18, 20, 40, 300, 310, 400}; int n = c.pick(N); static const char *DG[] = {"1", "9", "0", "12345678901"}; std::string dg = c.pick(DG), s; while ((int)s.size() < n) s += dg; s.resize(n);
    static const int PT[] = {-1, 0, 1, 2, 10, 100}; int p = c.pick(PT); if (p >= 0 && p <= n) s.insert(p, "."); static const char *E[] = {"", "e0", "e10", "e-10", "e38", "e39", "e-45", "e-46", "e308", "e309", "e-323", "e-324", "e99999"}; s += c.pick(E); if (c.flip()) s = "-" + s; parseBoth(c, s);
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
