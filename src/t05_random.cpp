// T05: threads that share a Random share one sequence, under every schedule.
#include "mcsched.hpp"
#include "jn.hpp"
#include <cmath>
#include "library/Java/Util/Random/Random.hpp"
#include "library/Java/Lang/Math/Math.hpp"
using namespace jav;
using Java::Util::Random;
typedef std::vector<double> Result;
// What a call has drawn so far: performing it again from the beginning gives its result or the draw it needs next.
struct Need { int bits; };
struct Draws {
    const std::vector<int> &d; size_t at = 0; explicit Draws(const std::vector<int> &v) : d(v) { }
    int next(int bits) { if (at == d.size()) throw Need{bits}; return d[at++]; }
    int bounded(int n) { if (__builtin_popcount(n) == 1) return (int)(((long)n * next(31)) >> 31); for (;;) { long b = next(31), v = b % n; if (b - v + (n - 1) <= INT_MAX) return (int)v; } }
    double real() { long a = next(26), b = next(27); return (double)((a << 27) + b) / 9007199254740992.0; }
};
struct State { unsigned long s; bool have; double g; };
static int advance(State &m, int bits) { m.s = (m.s * 25214903917UL + 11) & ((1UL << 48) - 1); return (int)(m.s >> (48 - bits)); }
static unsigned long scramble(long seed) { return ((unsigned long)seed ^ 25214903917UL) & ((1UL << 48) - 1); }
static void gauss(Draws &d, double &now, double &later) { for (;;) { double x = 2 * d.real() - 1, y = 2 * d.real() - 1, q = x * x + y * y; if (q >= 1 || q == 0) continue; double m = sqrt(-2 * log(q) / q); now = x * m; later = y * m; return; } }
static const char ABC[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
enum { INT, GAUSS, LONG, SEED, BOOL, BOUND, REAL, COPY, FLOAT, BIG, TEXT, BYTES, KINDS };
static const char *NAME[] = {"nextInt()", "nextGaussian()", "nextLong()", "setSeed(7)", "nextBoolean()", "nextInt(100)", "nextDouble()", "copy", "nextFloat()", "nextInt(2^30+1)", "nextString(2)", "nextBytes(2)"};
static bool whole(int k) { return k == GAUSS || k == SEED || k == COPY; }    // these exclude each other
struct Call { int kind; Result got; sched::Span span; Random *copy; Result of; };
static Result drawBoth(Random &r) { Result v; v.push_back(r.nextGaussian()); v.push_back(r.nextInt()); return v; }
static void perform(Random &r, Call &k) {
    Result v;
    switch (k.kind) {
        case INT: v.push_back(r.nextInt()); break;
        case GAUSS: v.push_back(r.nextGaussian()); break;
        case LONG: { long n = r.nextLong(); v.push_back((double)(n >> 32)); v.push_back((double)(n & 0xffffffffL)); break; }
        case SEED: r.setSeed(7); break;
        case BOOL: v.push_back(r.nextBoolean()); break;
        case BOUND: v.push_back(r.nextInt(100)); break;
        case REAL: v.push_back(r.nextDouble()); break;
        case COPY: k.copy = new Random(r); break;
        case FLOAT: v.push_back(r.nextFloat()); break;
        case BIG: v.push_back(r.nextInt((1 << 30) + 1)); break;
        case TEXT: { String t = r.nextString(2); sched::Quiet q; for (char c : S(t)) v.push_back(c); break; }
        default: { Array<byte> a; a.push(0); a.push(0); r.nextBytes(&a); v.push_back(a[0]); v.push_back(a[1]); v.push_back(a.length); }
    }
    sched::Quiet q; k.got = v;
}
static Result expected(int kind, Draws &d) {
    switch (kind) {
        case INT: return {(double)d.next(32)};
        case LONG: { long a = d.next(32), b = d.next(32), n = (long)(((unsigned long)a << 32) + b); return {(double)(n >> 32), (double)(n & 0xffffffffL)}; }
        case BOOL: return {(double)(d.next(1) != 0)};
        case BOUND: return {(double)d.bounded(100)};
        case REAL: return {d.real()};
        case FLOAT: return {(double)(d.next(24) / 16777216.0f)};
        case BIG: return {(double)d.bounded((1 << 30) + 1)};
        case TEXT: { double a = ABC[d.bounded(62)], b = ABC[d.bounded(62)]; return {a, b}; }
        default: { double a = (byte)(d.next(32) >> 8), b = (byte)(d.next(32) >> 8); return {a, b, 2.0}; }
    }
}
static bool same(const Result &a, const Result &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= 1e-12 * (1 + std::fabs(b[i])))) return false; return true; }
static Result bothOf(State m) { Result v; if (m.have) v.push_back(m.g); else { std::vector<int> d; for (;;) { try { Draws w(d); double a, b; gauss(w, a, b); v.push_back(a); break; } catch (Need &n) { d.push_back(advance(m, n.bits)); } } } v.push_back(advance(m, 32)); return v; }
// Is there an order of the single draws which explains what the calls gave and the state at the end?
struct Search {
    const std::vector<Call> &call; const Result &end; std::vector<std::vector<int>> drawn; std::vector<int> done;   // 0 not begun, 1 begun, 2 done
    Search(const std::vector<Call> &k, const Result &e) : call(k), end(e), drawn(k.size()), done(k.size(), 0) { }
    bool finish(State m, int i) { int was = done[i]; done[i] = 2; bool ok = go(m); done[i] = was; return ok; }
    bool go(const State &m) {
        bool left = false; int holder = -1; for (size_t i = 0; i < call.size(); i++) if (done[i] == 1 && whole(call[i].kind)) holder = (int)i;
        for (size_t i = 0; i < call.size(); i++) if (done[i] != 2) {
            left = true; const Call &k = call[i]; bool may = true; for (size_t j = 0; j < call.size(); j++) if (done[j] != 2 && call[j].span.res < k.span.inv) may = false;
            if (!may || (whole(k.kind) && holder >= 0 && holder != (int)i)) continue;
            if (k.kind == SEED) { State n = m; n.s = scramble(7); n.have = false; if (finish(n, (int)i)) return true; continue; }
            if (k.kind == COPY) { if (same(k.of, bothOf(m)) && finish(m, (int)i)) return true; continue; }
            if (k.kind == GAUSS && done[i] == 0 && m.have) { State n = m; n.have = false; if (same(k.got, {m.g}) && finish(n, (int)i)) return true; continue; }
            int bits = 0; try { Draws d(drawn[i]); if (k.kind == GAUSS) { double a, b; gauss(d, a, b); } else expected(k.kind, d); } catch (Need &n) { bits = n.bits; }
            State n = m; drawn[i].push_back(advance(n, bits)); int was = done[i]; done[i] = 1; bool ok;
            try { Draws d(drawn[i]); Result r; if (k.kind == GAUSS) { double a; gauss(d, a, n.g); n.have = true; r = {a}; } else r = expected(k.kind, d); ok = same(k.got, r) && finish(n, (int)i); } catch (Need &) { ok = go(n); }
            done[i] = was; drawn[i].pop_back(); if (ok) return true;
        }
        return !left && same(end, bothOf(m));
    }
};
static void go(mc::Ctx &c, int bound, const std::vector<std::vector<int>> &plan, bool pending) {
    c.note([&] { std::string s = pending ? "a Gaussian number is kept; " : ""; for (auto &t : plan) { s += "thread:"; for (int k : t) s += std::string(" ") + NAME[k]; s += "; "; } return s; });
    std::vector<Call> call; for (auto &t : plan) for (int k : t) call.push_back({k, {}, {}, nullptr, {}}); Result end;
    sched::run(c, bound, [&] {
        Random *r = new Random(42); if (pending) r->nextGaussian(); size_t at = 0;
        for (size_t t = 0; t < plan.size(); t++) { size_t first = at; at += plan[t].size(); sched::spawn([&, r, first, t] { for (size_t k = 0; k < plan[t].size(); k++) { if (k) sched::point(); Call &x = call[first + k]; x.span.inv = sched::tick(); perform(*r, x); x.span.res = sched::tick(); } }); }
        sched::joinAll(); for (auto &k : call) if (k.copy) { Result v = drawBoth(*k.copy); k.of = v; delete k.copy; } Result v = drawBoth(*r); end = v; delete r;
    });
    State m{scramble(42), false, 0}; if (pending) { std::vector<int> d; for (;;) { try { Draws w(d); double a; gauss(w, a, m.g); m.have = true; break; } catch (Need &n) { d.push_back(advance(m, n.bits)); } } }
    uint64_t h = 0; for (auto &k : call) for (double x : k.got) h = mc::mix(h, (uint64_t)(int64_t)(x * 1e6)); c.outcome(h);
    c.checkf(Search(call, end).go(m), [&] { std::string s = "no order of the draws explains the results:"; for (auto &k : call) { s += std::string(" ") + NAME[k.kind] + " ="; for (double x : k.kind == COPY ? k.of : k.got) s += " " + std::to_string(x); s += ","; } s += " and then"; for (double x : end) s += " " + std::to_string(x); return s; });
}
SCENARIO(pairs, "every pair of 12 kinds of calls in two threads, with and without a kept Gaussian number", 0, 3, 4) {
    bool p = c.flip(); int i = c.choose(KINDS), j = i + c.choose(KINDS - i); go(c, depth, {{i}, {j}}, p);
}
SCENARIO(two, "two calls each of 4 (7) kinds in two threads", 0, 2, 2) {
    int k = c.thorough ? 7 : 4, a[4]; bool p = c.flip(); for (int &x : a) x = c.choose(k); if (a[0] * k + a[1] > a[2] * k + a[3]) throw mc::Skip(); go(c, depth, {{a[0], a[1]}, {a[2], a[3]}}, p);
}
SCENARIO(gaussians, "nextGaussian and setSeed only, two or three calls in two threads", 0, 2, 4) {
    static const int K[] = {GAUSS, SEED, COPY}; bool p = c.flip(); int n = c.range(1, 2); std::vector<int> a, b; for (int i = 0; i < n; i++) a.push_back(K[c.choose(3)]); b.push_back(GAUSS); if (c.flip()) b.push_back(K[c.choose(3)]); go(c, depth, {a, b}, p);
}
SCENARIO(three, "three threads with a call of 4 (8) kinds each", 0, 2, 3) {
    int k = c.thorough ? 8 : 4, x = c.choose(k), y = x + c.choose(k - x), z = y + c.choose(k - y); go(c, depth, {{x}, {y}, {z}}, c.flip());
}
SCENARIO(fresh, "generators made without a seed at the same moment by 2-3 threads all differ", 0, 2, 4) {
    int threads = c.range(2, 3), each = threads == 2 ? 2 : 1; std::vector<Result> got(threads); c.note([&] { return std::to_string(threads) + " threads"; });
    sched::run(c, depth, [&] {
        sched::clock(0);
        for (int t = 0; t < threads; t++) sched::spawn([&, t] { for (int k = 0; k < each; k++) { Random *r = new Random(); int a = r->nextInt(), b = r->nextInt(); delete r; { sched::Quiet q; got[t].push_back(a); got[t].push_back(b); } double d = Java::Lang::Math::random(); c.check(d >= 0 && d < 1, "Math.random() is outside [0, 1)"); { sched::Quiet q; got[t].push_back(d); } } });
        sched::joinAll();
    });
    std::set<std::pair<double, double>> ints; std::set<double> reals; for (auto &g : got) for (size_t i = 0; i < g.size(); i += 3) { ints.insert({g[i], g[i + 1]}); reals.insert(g[i + 2]); }
    c.eq((int)ints.size(), threads * each, "number of different generators"); c.eq((int)reals.size(), threads * each, "number of different values of Math.random()");
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
