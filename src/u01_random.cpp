// U01: Random against the 48-bit linear congruential generator it is defined by.
#include "jn.hpp"
#include "library/Java/Util/Random/Random.hpp"
#include <memory>
using namespace jav;
using namespace Java::Lang;
using namespace Java::Util;
typedef std::string B;
struct Ref {
    __int128 s; bool have = false; double g = 0; Ref(long seed = 0) { set(seed); }
    void set(long seed) { s = ((unsigned long)seed ^ 25214903917UL) % (1UL << 48); have = false; }
    int next(int bits) { s = (s * 25214903917LL + 11) % ((__int128)1 << 48); return (int)(unsigned)(unsigned long)(s >> (48 - bits)); }
    int bounded(int n) { if (__builtin_popcount(n) == 1) return (int)(((long)n * next(31)) >> 31); for (;;) { long b = next(31), v = b % n; if (b - v + (n - 1) <= INT_MAX) return (int)v; } }
    double real() { long a = next(26), b = next(27); return (double)((a << 27) + b) / 9007199254740992.0; }
    double gauss() { if (have) { have = false; return g; } for (;;) { double x = 2 * real() - 1, y = 2 * real() - 1, q = x * x + y * y; if (q >= 1 || q == 0) continue; double m = sqrt(-2 * log(q) / q); g = y * m; have = true; return x * m; } }
};
static bool near(double a, double b) { return fabs(a - b) <= 1e-12 * (1 + fabs(b)); }
static const int BOUND[] = {1, 2, 3, 7, 62, 64, 100, 1 << 30, (1 << 30) + 1, INT_MAX - 1, INT_MAX};
static const char ABC[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
static const int KINDS = 12;
static void draw(mc::Ctx &c, Random &r, Ref &m, int op) {
    switch (op) {
    case 0: c.eq(r.nextInt(), m.next(32), "nextInt()"); break;
    case 1: { long a = m.next(32), b = m.next(32); c.eq((long)r.nextLong(), (long)(((unsigned long)a << 32) + b), "nextLong()"); break; }
    case 2: c.eq((bool)r.nextBoolean(), m.next(1) != 0, "nextBoolean()"); break;
    case 3: c.eq((float)r.nextFloat(), (float)m.next(24) / 16777216.0f, "nextFloat()"); break;
    case 4: c.eq((double)r.nextDouble(), m.real(), "nextDouble()"); break;
    case 5: { double g = r.nextGaussian(), w = m.gauss(); if (!near(g, w)) c.fail("nextGaussian() is " + std::to_string(g) + ", expected " + std::to_string(w)); break; }
    case 6: c.eq(r.nextInt(100), m.bounded(100), "nextInt(100)"); break;
    case 7: c.eq(r.nextInt((1 << 30) + 1), m.bounded((1 << 30) + 1), "nextInt(2^30 + 1)"); break;
    case 8: c.eq(r.nextInt(64), m.bounded(64), "nextInt(64)"); break;
    case 9: { B w; for (int i = 0; i < 5; i++) w += ABC[m.bounded(62)]; c.eq(S(r.nextString(5)), w, "nextString(5)"); break; }
    case 10: { r.setSeed(42); m.set(42); break; }
    case 11: { Array<byte> a; for (int i = 0; i < 3; i++) a.push((byte)(10 + i)); r.nextBytes(&a); c.eq((int)a.length, 3, "length of the array given to nextBytes()"); for (int i = 0; i < 3; i++) c.eq((int)(byte)a.get(i), (int)(byte)(m.next(32) >> 8), "byte of nextBytes()"); break; }
    }
}
static const char *KIND[] = {"nextInt", "nextLong", "nextBoolean", "nextFloat", "nextDouble", "nextGaussian", "nextInt(100)", "nextInt(2^30+1)", "nextInt(64)", "nextString(5)", "setSeed(42)", "nextBytes"};
static const long SEED[] = {0, 1, -1, 42, 0x5DEECE66DL, LONG_MAX, LONG_MIN, 1L << 48, 123456789012345678L};
SCENARIO(histories, "all histories of 12 kinds of draws and copying (the copy is used from there, the original at the end) from 3 seeds", 1, 5, 6) {
    long seed = SEED[3 + c.choose(3)]; std::vector<std::unique_ptr<Random>> r; std::vector<Ref> m; r.emplace_back(new Random(seed)); m.emplace_back(seed); uint64_t h = seed; c.note([&] { return "seed " + std::to_string(seed); });
    for (int i = 0; i < depth; i++) { int op = c.choose(KINDS + 1); h = mc::mix(h, op); if (op == KINDS) { c.note([] { return "copy"; }); r.emplace_back(new Random(*r.back())); m.push_back(m.back()); } else { c.note([&] { return KIND[op]; }); draw(c, *r.back(), m.back(), op); } }
    for (size_t i = 0; i < r.size(); i++) for (int op : {5, 0, 5}) draw(c, *r[i], m[i], op); c.state(h);
}
SCENARIO(seeds, "2000 draws of each kind from 9 seeds and all their single bits", 1, 1, 1) {
    int k = c.choose(9 + 64), op = c.choose(KINDS); long seed = k < 9 ? SEED[k] : (long)(1UL << (k - 9)); Random r(seed), z; Ref m(seed); c.state(mc::mix(k, op)); c.note([&] { return "seed " + std::to_string(seed) + ", " + KIND[op]; }); for (int i = 0; i < 2000; i++) draw(c, r, m, op); z.setSeed(seed); Ref n(seed); for (int i = 0; i < 3; i++) draw(c, z, n, op);
}
SCENARIO(bounds, "500 bounded draws for all bounds up to 130, around all powers of two, and refusal of bounds below 1", 1, 1, 1) {
    int k = c.choose(130 + 31 * 3); int n = k < 130 ? k + 1 : 0; if (!n) { long v = (1L << ((k - 130) / 3 + 1)) + (k - 130) % 3 - 1; if (v > INT_MAX || v < 1) throw mc::Skip(); n = (int)v; } c.note([&] { return "bound " + std::to_string(n); }); c.state(n); Random r(n); Ref m(n);
    for (int i = 0; i < 500; i++) { int v = r.nextInt(n); if (v < 0 || v >= n) c.fail("nextInt(" + std::to_string(n) + ") is " + std::to_string(v)); c.eq(v, m.bounded(n), "nextInt(bound)"); } for (int bad : {0, -1, -n, INT_MIN}) c.check(attempt([&] { return r.nextInt(bad); }).threw, "a bound below 1 was accepted"); c.eq(r.nextInt(n), m.bounded(n), "nextInt(bound) after refused bounds");
}
SCENARIO(sizes, "texts and arrays of all lengths up to 300", 1, 1, 1) {
    int n = c.choose(301); Random r(n); Ref m(n); c.state(n); c.note([&] { return std::to_string(n); }); B w; for (int i = 0; i < n; i++) w += ABC[m.bounded(62)]; c.eq(S(r.nextString(n)), w, "nextString()"); Array<byte> a; for (int i = 0; i < n; i++) a.push(0); r.nextBytes(&a); c.eq((int)a.length, n, "length after nextBytes()"); for (int i = 0; i < n; i++) c.eq((int)(byte)a.get(i), (int)(byte)(m.next(32) >> 8), "byte of nextBytes()");
}
SCENARIO(unseeded, "generators made without a seed differ", 1, 1, 1) { c.choose(50); std::set<std::pair<int, int>> s; for (int i = 0; i < 200; i++) { Random r; int a = r.nextInt(); s.insert({a, r.nextInt()}); } c.eq((int)s.size(), 200, "number of different generators"); }
int main(int argc, char **argv) { return mc::main(argc, argv); }
