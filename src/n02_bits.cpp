// N02: bit operations of Integer and Long.  Oracle: loops over single bits.
#include "num_common.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
using namespace jav;
using namespace Java::Lang;

template<int N> struct Bits {
    bool b[N];
    explicit Bits(unsigned long w) { for (int i = 0; i < N; i++) b[i] = w >> i & 1; }
    Bits() { for (bool &x : b) x = false; }
    long value() const { unsigned long w = 0; for (int i = 0; i < N; i++) w |= (unsigned long)b[i] << i; if (N == 32) return (long)(int)(unsigned)w; return (long)w; }
    int count() const { int n = 0; for (bool x : b) n += x; return n; }
    int highest() const { for (int i = N - 1; i >= 0; i--) if (b[i]) return i; return -1; }
    int lowest() const { for (int i = 0; i < N; i++) if (b[i]) return i; return N; }
    Bits one(int i) const { Bits r; if (i >= 0 && i < N) r.b[i] = true; return r; }
    Bits reversed() const { Bits r; for (int i = 0; i < N; i++) r.b[N - 1 - i] = b[i]; return r; }
    Bits bytesReversed() const { Bits r; for (int i = 0; i < N; i++) r.b[(N / 8 - 1 - i / 8) * 8 + i % 8] = b[i]; return r; }
    Bits rotated(int d) const { Bits r; for (int i = 0; i < N; i++) r.b[((i + d) % N + N) % N] = b[i]; return r; }
};

static void unary32(mc::Ctx &c, unsigned long w) {
    int v = (int)(unsigned)w; Bits<32> m(w & 0xffffffffu); long sg = v > 0 ? 1 : v < 0 ? -1 : 0;
    c.note([&] { return "int " + HEX((unsigned)v); }); c.state(mc::mix(32, (unsigned)v));
    c.eq(Integer::bitCount(v), m.count(), "Integer.bitCount"); c.eq((long)Integer::highestOneBit(v), m.one(m.highest()).value(), "Integer.highestOneBit"); c.eq((long)Integer::lowestOneBit(v), m.one(m.lowest()).value(), "Integer.lowestOneBit");
    c.eq(Integer::numberOfLeadingZeros(v), 31 - m.highest(), "Integer.numberOfLeadingZeros"); c.eq(Integer::numberOfTrailingZeros(v), m.lowest(), "Integer.numberOfTrailingZeros");
    c.eq((long)Integer::reverse(v), m.reversed().value(), "Integer.reverse"); c.eq((long)Integer::reverseBytes(v), m.bytesReversed().value(), "Integer.reverseBytes");
    c.eq((long)Integer::signum(v), sg, "Integer.signum"); c.eq(Integer::hashCode(v), v, "Integer.hashCode(value)"); c.eq(Integer(v).hashCode(), v, "Integer.hashCode()");
    c.eq(Integer::toUnsignedLong(v), (long)(unsigned long)(unsigned)v, "Integer.toUnsignedLong");
}
static void rotate32(mc::Ctx &c, unsigned long w) {
    int v = (int)(unsigned)w; Bits<32> m(w & 0xffffffffu);
    for (int d = -66; d <= 66; d++) { c.eq((long)Integer::rotateLeft(v, d), m.rotated(d).value(), "Integer.rotateLeft"); c.eq((long)Integer::rotateRight(v, d), m.rotated(-d).value(), "Integer.rotateRight"); }
}
static void unary64(mc::Ctx &c, unsigned long w) {
    long v = (long)w; Bits<64> m(w); int sg = v > 0 ? 1 : v < 0 ? -1 : 0;
    c.note([&] { return "long " + HEX(w); }); c.state(mc::mix(64, w));
    c.eq(Long::bitCount(v), m.count(), "Long.bitCount"); c.eq(Long::highestOneBit(v), m.one(m.highest()).value(), "Long.highestOneBit"); c.eq(Long::lowestOneBit(v), m.one(m.lowest()).value(), "Long.lowestOneBit");
    c.eq(Long::numberOfLeadingZeros(v), 63 - m.highest(), "Long.numberOfLeadingZeros"); c.eq(Long::numberOfTrailingZeros(v), m.lowest(), "Long.numberOfTrailingZeros");
    c.eq(Long::reverse(v), m.reversed().value(), "Long.reverse"); c.eq(Long::reverseBytes(v), m.bytesReversed().value(), "Long.reverseBytes");
    c.eq(Long::signum(v), sg, "Long.signum"); c.eq(Long(v).hashCode(), (int)(unsigned)(w ^ w >> 32), "Long.hashCode()");
}
static void rotate64(mc::Ctx &c, unsigned long w) {
    Bits<64> m(w);
    for (int d = -130; d <= 130; d++) { c.eq(Long::rotateLeft((long)w, d), m.rotated(d).value(), "Long.rotateLeft"); c.eq(Long::rotateRight((long)w, d), m.rotated(-d).value(), "Long.rotateRight"); }
}
SCENARIO(unaryInt, "Integer: all words with up to 3 bits set, all runs of ones, and their complements", 1, 1, 1) { unary32(c, word(c, 32)); }
SCENARIO(unaryLong, "Long: all words with up to 3 bits set, all runs of ones, and their complements", 1, 1, 1) { unary64(c, word(c, 64)); }
SCENARIO(dense, "Integer and Long: every 16 bit pattern at every eighth position", 1, 1, 1) {
    int hi = c.range(0, 255), sh = 8 * c.choose(7);
    for (int lo = 0; lo < 256; lo++) { unsigned long w = (unsigned long)(hi << 8 | lo) << sh; unary64(c, w); if (sh <= 24) unary32(c, w); }
}
SCENARIO(rotations, "rotateLeft and rotateRight by -66..66 (-130..130) of the boundary words", 1, 1, 1) {
    if (c.flip()) rotate64(c, c.pick(edges(64))); else rotate32(c, c.pick(edges(32)));
}
SCENARIO(unsignedPairs, "compareUnsigned, divideUnsigned, remainderUnsigned, compare, max, min, sum of all pairs of boundary values", 1, 1, 1) {
    int a = (int)c.pick(edges(32)), b = (int)c.pick(edges(32)); unsigned ua = a, ub = b;
    c.note([&] { return HEX(ua) + ", " + HEX(ub); }); c.state(mc::mix(ua, ub));
    c.eq(Integer::compareUnsigned(a, b), ua < ub ? -1 : ua > ub ? 1 : 0, "compareUnsigned"); c.eq(Integer::compare(a, b), a < b ? -1 : a > b ? 1 : 0, "compare");
    c.eq(attemptAs<ArithmeticException>("ArithmeticException", [&] { return (unsigned)Integer::divideUnsigned(a, b); }), ub ? ret<unsigned>(ua / ub) : thrown<unsigned>("ArithmeticException"), "divideUnsigned");
    c.eq(attemptAs<ArithmeticException>("ArithmeticException", [&] { return (unsigned)Integer::remainderUnsigned(a, b); }), ub ? ret<unsigned>(ua % ub) : thrown<unsigned>("ArithmeticException"), "remainderUnsigned");
    c.eq(Integer::max(a, b), a > b ? a : b, "max"); c.eq(Integer::min(a, b), a < b ? a : b, "min"); c.eq(Integer::sum(a, b), (int)(ua + ub), "sum");
}
SCENARIO(conversions, "narrowing and widening conversions of Integer, Long, Short and Bytes for all boundary values", 1, 1, 1) {
    long v = c.pick(edges(64)); c.note([&] { return HEX(v); }); c.state(v);
    Long l(v); c.eq(l.intValue(), (int)v, "Long.intValue"); c.eq(l.shortValue(), (short)v, "Long.shortValue"); c.eq(l.byteValue(), (int)(signed char)v, "Long.byteValue"); c.eq(l.longValue(), v, "Long.longValue"); c.eq(l.floatValue(), (float)v, "Long.floatValue"); c.eq(l.doubleValue(), (double)v, "Long.doubleValue");
    int i = (int)v; Integer n(i); c.eq(n.intValue(), i, "Integer.intValue"); c.eq(n.shortValue(), (short)i, "Integer.shortValue"); c.eq((int)n.byteValue(), (int)(byte)i, "Integer.byteValue"); c.eq(n.longValue(), (long)i, "Integer.longValue"); c.eq(n.floatValue(), (float)i, "Integer.floatValue"); c.eq(n.doubleValue(), (double)i, "Integer.doubleValue");
    short h = (short)v; Short s(h); c.eq(s.intValue(), (int)h, "Short.intValue"); c.eq(s.shortValue(), h, "Short.shortValue"); c.eq(s.longValue(), (long)h, "Short.longValue"); c.eq(s.floatValue(), (float)h, "Short.floatValue"); c.eq(s.doubleValue(), (double)h, "Short.doubleValue");
    byte y = (byte)v; Bytes b(y); c.eq(b.intValue(), (int)y, "Bytes.intValue"); c.eq(b.shortValue(), (short)y, "Bytes.shortValue"); c.eq(b.longValue(), (long)y, "Bytes.longValue"); c.eq(b.byteValue(), y, "Bytes.byteValue"); c.eq(b.floatValue(), (float)y, "Bytes.floatValue"); c.eq(b.doubleValue(), (double)y, "Bytes.doubleValue"); c.eq(b.hashCode(), (int)y, "Bytes.hashCode"); c.eq(Bytes::hashCode(y), (int)y, "Bytes.hashCode(value)");
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
