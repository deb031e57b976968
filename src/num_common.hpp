// The value domains shared by the number harnesses.
#pragma once
#include "jn.hpp"
namespace jav {
inline unsigned long word(mc::Ctx &c, int bits) {   // all words with up to three bits set, all runs of ones, powers of ten +-1, and their complements
    unsigned long w = 0;
    switch (c.choose(3)) {
        case 0: { int a = c.range(0, bits - 1), b = c.range(a, bits - 1), d = c.range(b, bits - 1); w = 1ul << a | 1ul << b | 1ul << d; } break;
        case 1: { int a = c.range(0, bits - 1), n = c.range(0, bits - a); for (int i = 0; i < n; i++) w |= 1ul << (a + i); } break;
        default: { unsigned long p = 1; int n = c.range(0, 19); for (int i = 0; i < n; i++) p *= 10; w = p + c.range(-1, 1); } break;
    }
    return c.flip() ? ~w : w;
}
// boundary values of a width: 0, 1, 2, 3, 7, 10, powers of two next to every eighth bit, extremes, their neighbours and negatives
inline const std::vector<long> &edges(int bits) {
    static std::map<int, std::vector<long>> memo;
    auto &v = memo[bits];
    if (v.empty()) {
        std::set<long> s;
        unsigned long mask = bits == 64 ? ~0ul : (1ul << bits) - 1;
        auto add = [&](unsigned long w) { w &= mask; if (bits < 64 && (w >> (bits - 1) & 1)) w |= ~mask; s.insert((long)w); };
        for (long k : {0l, 1l, 2l, 3l, 7l, 10l, 100l, 12345l, 0x5555555555555555l, 0x0123456789abcdefl}) { add(k); add(-k); add(~k); }
        for (int b = 7; b < bits; b += 8) for (int d : {-1, 0, 1}) { add((1ul << b) + d); add((1ul << (b - 3)) + d); add(-((1ul << b) + d)); }
        for (int d : {-2, -1, 0, 1, 2}) { add((1ul << (bits - 1)) + d); add((1ul << (bits - 2)) + d); }
        v.assign(s.begin(), s.end());
        std::sort(v.begin(), v.end(), [](long a, long b) { unsigned long x = a < 0 ? -(unsigned long)a : a, y = b < 0 ? -(unsigned long)b : b; return x != y ? x < y : a > b; });
    }
    return v;
}
}
namespace jav {
inline double dbl(unsigned long w) { double d; memcpy(&d, &w, 8); return d; }
inline float flt(unsigned w) { float f; memcpy(&f, &w, 4); return f; }
inline unsigned long rawBits(double d) { unsigned long w; memcpy(&w, &d, 8); return w; }
inline unsigned rawBits(float d) { unsigned w; memcpy(&w, &d, 4); return w; }
// every sign and exponent x seven significands
inline double anyDouble(mc::Ctx &c) {
    static const unsigned long M[] = {0, 1, 2, 1ul << 51, (1ul << 51) + 1, (1ul << 52) - 2, (1ul << 52) - 1};
    unsigned long e = c.choose(2048); return dbl((unsigned long)c.flip() << 63 | e << 52 | c.pick(M));
}
inline float anyFloat(mc::Ctx &c) {
    static const unsigned M[] = {0, 1, 2, 1u << 22, (1u << 22) + 1, 0x155555, (1u << 23) - 2, (1u << 23) - 1};
    unsigned e = c.choose(256); return flt((unsigned)c.flip() << 31 | e << 23 | c.pick(M));
}
// small and boundary values, for pairs
template<class F> const std::vector<F> &someReals() {
    static std::vector<F> v;
    if (v.empty()) {
        typedef std::numeric_limits<F> L;
        for (F x : {(F)0, (F)1, (F)0.5, (F)1.5, (F)2, (F)2.5, (F)3, (F)0.1, (F)10, (F)1e10, (F)123456.75, L::min(), L::denorm_min(), (F)(L::min() - L::denorm_min()), L::max(), (F)(L::max() / 2), L::epsilon(), (F)(1 + L::epsilon()), (F)(1 - L::epsilon()), L::infinity()}) { v.push_back(x); v.push_back(-x); }
        v.push_back(L::quiet_NaN());
    }
    return v;
}
template<class F> bool same(F a, F b) { return (a != a && b != b) || a == b; }
}
