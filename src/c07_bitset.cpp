// C07: BitSet against a plain set of numbers.
#include "col_common.hpp"
#include "library/Java/Util/BitSet/BitSet.hpp"
#include "library/Java/Lang/NegativeArraySizeException/NegativeArraySizeException.hpp"
using namespace Java::Util;
#define IOOBE "IndexOutOfBoundsException"
typedef std::set<int> M;
static const int I[] = {0, 1, 62, 63, 64, 65, 127, 128, 192};

static std::string show(const M &m) { std::string s = "{"; for (int i : m) s += (s.size() > 1 ? ", " : "") + std::to_string(i); return s + "}"; }
static const int D[] = {0, 63, 64, 128, 129};
static uint64_t hash(const M &m) { uint64_t h = 3; for (int i : m) h = mc::mix(h, i + 1); return h; }
static void range(M &m, int a, int b, int how) { for (int i = a; i < b; i++) { if (how == 0) m.insert(i); else if (how == 1) m.erase(i); else if (!m.erase(i)) m.insert(i); } }
static bool no(std::function<void()> f) { return refused<IndexOutOfBoundsException>(IOOBE, f); }
static void view(mc::Ctx &c, const BitSet &b, const M &m, const char *who, bool full, bool every = false) {
    auto bad = [&](const std::string &what) { c.fail(std::string(who) + ": " + what + " differs from " + show(m)); };
    int len = m.empty() ? 0 : *m.rbegin() + 1;
    if (b.length() != len) bad("length()"); if (b.cardinality() != (int)m.size()) bad("cardinality()"); if ((bool)b.isEmpty() != m.empty()) bad("isEmpty()"); if (b.size() < len || b.size() % 64) bad("size()");
    if (m.size() < 40) { std::string t = S(b.toString()); if (t != show(m)) bad("toString() " + t); }
    std::vector<int> at; if (every) for (int i = 0; i <= 260; i++) at.push_back(i); else at.assign(std::begin(I), std::end(I)); at.push_back(INT_MAX - 1); at.push_back(INT_MAX);
    static bool in[512]; std::fill(in, in + 512, false); for (int i : m) in[i] = true; auto has = [&](int i) { return i >= 0 && i < 512 && in[i]; };
    for (int i : at) {
        if ((bool)b.get(i) != has(i)) bad("get(" + std::to_string(i) + ")");
        auto n = m.lower_bound(i); if (b.nextSetBit(i) != (n == m.end() ? -1 : *n)) bad("nextSetBit(" + std::to_string(i) + ")");
        auto p = m.upper_bound(i); if (b.previousSetBit(i) != (p == m.begin() ? -1 : *std::prev(p))) bad("previousSetBit(" + std::to_string(i) + ")");
        int k = i; while (has(k)) k++; if (b.nextClearBit(i) != k) bad("nextClearBit(" + std::to_string(i) + ")");
        k = i; while (has(k)) k--; if (b.previousClearBit(i) != k) bad("previousClearBit(" + std::to_string(i) + ")");
    }
    if (!full) return;
    if (b.previousSetBit(-1) != -1 || b.previousClearBit(-1) != -1) bad("previous bit of -1");
    Array<long> w = b.toLongArray(); M got; for (int i = 0; i < (int)w.length; i++) for (int j = 0; j < 64; j++) if ((unsigned long)w.get(i) >> j & 1) got.insert(i * 64 + j); if (got != m || (int)w.length != (len + 63) / 64) bad("toLongArray()");
    Array<byte> y = b.toByteArray(); got.clear(); for (int i = 0; i < (int)y.length; i++) for (int j = 0; j < 8; j++) if ((unsigned char)y.get(i) >> j & 1) got.insert(i * 8 + j); if (got != m || (int)y.length != (len + 7) / 8) bad("toByteArray()");
    BitSet fl = BitSet::valueOf(w), fb = BitSet::valueOf(y); if (!fl.equals(b) || !b.equals(fl) || !(fb == b)) bad("a set built from toLongArray() or toByteArray()"); if (fl.hashCode() != b.hashCode() || fb.hashCode() != b.hashCode()) bad("hashCode() of an equal set");
}
static void start(mc::Ctx &c, std::unique_ptr<BitSet> &b, M &m) {
    static const int N[] = {0, 1, 63, 64, 65, 128}; int k = c.choose(10);
    if (k == 0) b.reset(new BitSet()); else if (k <= 6) b.reset(new BitSet(N[k - 1]));
    else if (k == 7) { Array<long> w; w.push(1); w.push((long)(1UL << 63)); w.push(0); b.reset(new BitSet(BitSet::valueOf(w))); m = {0, 127}; }
    else if (k == 8) { Array<byte> w; for (int i = 0; i < 9; i++) w.push((byte)(i == 8 ? 0x81 : i == 7 ? 0x80 : i == 0 ? 3 : 0)); w.push(0); b.reset(new BitSet(BitSet::valueOf(w))); m = {0, 1, 63, 64, 71}; }
    else { b.reset(new BitSet()); for (int i = 0; i < 192; i++) { b->set(i); m.insert(i); } }
    c.note([&] { return "start " + std::to_string(k) + (m.size() > 20 ? " 0..191" : " " + show(m)); });
}
static void run(mc::Ctx &c, int depth, bool wide, int points) {
    std::unique_ptr<BitSet> x, y(new BitSet()); M m, q; if (wide) start(c, x, m); else { x.reset(new BitSet()); }
    auto idx = [&](const char *w) { int i = points == 9 ? I[c.choose(9)] : D[c.choose(points)]; c.note([&] { return std::string(w) + " " + std::to_string(i); }); return i; };
    auto span = [&](const char *w, int &a, int &b) { int n = wide ? 9 : points, i = c.choose(n), j = c.choose(n); if (j < i) throw mc::Skip(); a = wide ? I[i] : D[i]; b = wide ? I[j] : D[j]; c.note([&] { return std::string(w) + " [" + std::to_string(a) + ", " + std::to_string(b) + ")"; }); };
    for (int step = 0; step < depth; step++) {
        int a, b; BitSet &s = *x;
        switch (c.choose(wide ? 17 : 9)) {
            case 0: { int i = idx("set"); if (i % 2) s.set(i); else s.set(i, true); m.insert(i); } break;
            case 1: { int i = idx("clear"); if (i % 2) s.clear(i); else s.set(i, false); m.erase(i); } break;
            case 2: { int i = idx("flip"); s.flip(i); range(m, i, i + 1, 2); } break;
            case 3: span("set", a, b); if (a % 2) s.set(a, b); else s.set(a, b, true); range(m, a, b, 0); break;
            case 4: span("clear", a, b); if (a % 2) s.clear(a, b); else s.set(a, b, false); range(m, a, b, 1); break;
            case 5: span("flip", a, b); s.flip(a, b); range(m, a, b, 2); break;
            case 6: { int how = c.choose(4); bool self = wide && c.flip(); c.note([&] { return std::string("x ") + (how == 0 ? "and" : how == 1 ? "or" : how == 2 ? "xor" : "and not") + (self ? " x" : " y"); }); BitSet &o = self ? *x : *y; M w = self ? m : q, r;
                if (how == 0) { s.bitAnd(o); for (int i : m) if (w.count(i)) r.insert(i); } else if (how == 1) { s.bitOr(o); r = m; r.insert(w.begin(), w.end()); } else if (how == 2) { s.bitXor(o); r = m; for (int i : w) if (!r.erase(i)) r.insert(i); } else { s.andNot(o); for (int i : m) if (!w.count(i)) r.insert(i); } m = r; } break;
            case 7: c.note([] { return "swap x and y"; }); std::swap(x, y); std::swap(m, q); break;
            case 8: c.note([] { return "y = x"; }); *y = *x; q = m; break;
            case 9: c.note([] { return "clear all"; }); s.clear(); m.clear(); break;
            case 10: c.note([] { return "y = copy of x"; }); y.reset(new BitSet(s)); q = m; break;
            case 11: c.note([] { return "y = x.clone()"; }); y.reset(new BitSet(s.clone())); q = m; break;
            case 12: { c.note([] { return "x = x"; }); BitSet &r = s; s = r; } break;
            case 13: { span("y = x.get", a, b); (void)y->toString(); *y = s.get(a, b); q.clear(); for (int i : m) if (i >= a && i < b) q.insert(i - a); } break;
            case 14: { c.note([] { return "clear from 1 on"; }); s.clear(1, INT_MAX); range(m, 1, 300, 1); } break;
            case 15: { c.note([] { return "a look at the text of both"; }); (void)x->toString(); (void)y->toString(); } break;
            default: { c.note([] { return "refused indices"; }); int k = -1 - c.choose(2) * (INT_MAX - 1); c.check(no([&] { s.set(k); }) && no([&] { s.clear(k); }) && no([&] { s.flip(k); }) && no([&] { (void)s.get(k); }) && no([&] { (void)s.nextSetBit(k); }) && no([&] { (void)s.nextClearBit(k); }) && no([&] { (void)s.previousSetBit(k - 1); }) && no([&] { (void)s.previousClearBit(k - 1); }), "a negative index was not refused");
                for (auto r : std::vector<std::pair<int, int>>{{k, 5}, {0, k}, {6, 5}, {k, k}, {128, 64}}) c.check(no([&] { s.set(r.first, r.second); }) && no([&] { s.clear(r.first, r.second); }) && no([&] { s.flip(r.first, r.second); }) && no([&] { (void)s.get(r.first, r.second); }), "a range that is none was not refused"); } break;
        }
        bool last = step == depth - 1; if (last) { view(c, *x, m, "x", true, depth == 1); view(c, *y, q, "y", wide && depth == 1, wide && depth == 1); bool meet = false; for (int i : m) meet |= q.count(i) > 0; c.eq((bool)x->intersects(*y), meet, "intersects()"); c.eq((bool)y->intersects(*x), meet, "intersects()"); c.eq((bool)x->equals(*y), m == q, "equals()"); c.eq((bool)(*x == *y), m == q, "=="); if (m == q) c.eq(x->hashCode(), y->hashCode(), "hashCode()"); } else c.eq(x->length(), m.empty() ? 0 : *m.rbegin() + 1, "length()");
        c.state(mc::mix(hash(m), hash(q)));
    }
}
SCENARIO(all, "all histories of 17 kinds of operations with 9 positions around the word boundaries, from 10 starting sets", 1, 2, 2) { run(c, depth, true, 9); }
SCENARIO(deep, "longer histories of set, clear and flip (of bits and ranges), and, or, xor, and not, swap, assignment with 4-5 positions", 3, 3, 4) { run(c, depth, false, depth > 3 ? 4 : 5); }
SCENARIO(slices, "get(range) and its result for all ranges from word boundaries in 9 patterns of 200 bits", 1, 1, 1) {
    int p = c.choose(9), a = c.choose(3) * 64 + c.choose(64); if (a % 64 > 3 && a % 64 < 61 && a != 30) throw mc::Skip(); BitSet b; M m; for (int i = 0; i < 200; i++) if (p == 0 ? true : p == 1 ? i % 2 : p == 2 ? i % 3 == 0 : p == 3 ? i < 64 : p == 4 ? i >= 128 : p == 5 ? i % 63 == 0 : p == 6 ? i % 64 == 63 : p == 7 ? i % 64 == 0 : i == 199) { b.set(i); m.insert(i); }
    c.note([&] { return "pattern " + std::to_string(p) + ", ranges from " + std::to_string(a); }); c.state(mc::mix(p, a));
    for (int e = a; e <= 202; e++) { BitSet r = b.get(a, e); M w; for (int i : m) if (i >= a && i < e) w.insert(i - a); if (S(r.toString()) != show(w)) c.fail("get(" + std::to_string(a) + ", " + std::to_string(e) + ") is " + S(r.toString()) + ", expected " + show(w)); c.eq(r.length(), w.empty() ? 0 : *w.rbegin() + 1, "length() of get(range)"); c.eq(r.cardinality(), (int)w.size(), "cardinality() of get(range)");
        M v; BitSet f(b); f.flip(a, e); v = m; range(v, a, e, 2); c.eq(f.cardinality(), (int)v.size(), "cardinality() after flip(range)"); c.eq(f.length(), v.empty() ? 0 : *v.rbegin() + 1, "length() after flip(range)"); BitSet g(b); g.clear(a, e); c.eq(g.cardinality(), (int)(m.size() - w.size()), "cardinality() after clear(range)"); }
}
SCENARIO(large, "sets of more than 128 words: text, length and cardinality", 1, 1, 1) { int n = c.range(126, 132) * 64 - 1 + c.choose(3), step = c.choose(2) ? 1 : 61; BitSet b; M m; for (int i = 0; i < n; i += step) { b.set(i); m.insert(i); } c.state(mc::mix(n, step)); c.eq(S(b.toString()), show(m), "toString()"); c.eq(b.cardinality(), (int)m.size(), "cardinality()"); c.eq(b.length(), *m.rbegin() + 1, "length()"); }
SCENARIO(negative, "a negative size is refused", 1, 1, 1) { int k = -c.range(1, 3); c.state(k); c.check(refused<NegativeArraySizeException>("NegativeArraySizeException", [&] { BitSet b(k); }), "BitSet(negative) was not refused"); }
int main(int argc, char **argv) { return mc::main(argc, argv); }
