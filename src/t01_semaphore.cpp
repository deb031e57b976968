// T01: a Semaphore hands out exactly the permits it has, under every schedule.
#include "mcsched.hpp"
#include "jn.hpp"
#include "library/Java/Util/Concurrent/Semaphore/Semaphore.hpp"
using namespace jav;
using Java::Util::Concurrent::Semaphore;
enum Kind { ACQ, REL, TRY, TIMED, AVAIL, TEXT };
struct Op { const char *name; Kind kind; int n; int (*f)(Semaphore &); };
static int number(const std::string &s) { int v = -99; sscanf(s.c_str(), "[Permits = %d]", &v); return v; }
static const Op OPS[] = {
    {"acquire()", ACQ, 1, [](Semaphore &s) { s.acquire(); return 1; }},
    {"release()", REL, 1, [](Semaphore &s) { s.release(); return 1; }},
    {"tryAcquire()", TRY, 1, [](Semaphore &s) { return (int)s.tryAcquire(); }},
    {"acquire(2)", ACQ, 2, [](Semaphore &s) { s.acquire(2); return 1; }},
    {"release(2)", REL, 2, [](Semaphore &s) { s.release(2); return 1; }},
    {"tryAcquire(1, 50)", TIMED, 1, [](Semaphore &s) { return (int)s.tryAcquire(1, 50); }},
    {"tryAcquire(2, 50)", TIMED, 2, [](Semaphore &s) { return (int)s.tryAcquire(2, 50); }},
    {"tryAcquire(2)", TRY, 2, [](Semaphore &s) { return (int)s.tryAcquire(2); }},
    {"availablePermits()", AVAIL, 0, [](Semaphore &s) { return s.availablePermits(); }},
    {"toString()", TEXT, 0, [](Semaphore &s) { return number(S(s.toString())); }},
    {"tryAcquire(1, -1)", ACQ, 1, [](Semaphore &s) { return (int)s.tryAcquire(1, -1); }},
    {"acquire(3)", ACQ, 3, [](Semaphore &s) { s.acquire(3); return 1; }},
    {"tryAcquire(1, 0)", TRY, 1, [](Semaphore &s) { return (int)s.tryAcquire(1, 0); }},
};
const int NOPS = sizeof OPS / sizeof *OPS;
typedef std::vector<std::vector<const Op *>> Plan;
// The model: does call o give the result r when n permits are there?
static bool step(int &n, const Op &o, int r) {
    switch (o.kind) {
        case ACQ: if (r != 1 || n < o.n) return false; n -= o.n; return true;
        case REL: n += o.n; return true;
        case TRY: case TIMED: if ((r != 0) != (n >= o.n)) return false; if (r) n -= o.n; return true;
        default: return r == n;
    }
}
// No order of the calls leaves a thread waiting for ever.
static bool completes(const Plan &p, std::vector<size_t> at, int n) {
    bool any = false, left = false;
    for (size_t t = 0; t < p.size(); t++) if (at[t] < p[t].size()) {
        left = true; const Op &o = *p[t][at[t]]; int m = n; if (o.kind == ACQ && n < o.n) continue;
        any = true; if (o.kind == ACQ || ((o.kind == TRY || o.kind == TIMED) && n >= o.n)) m -= o.n; else if (o.kind == REL) m += o.n;
        at[t]++; if (!completes(p, at, m)) return false;
        if (o.kind == TIMED && n < o.n) { }
        at[t]--;
    }
    return any || !left;
}
static void go(mc::Ctx &c, int bound, int start, const Plan &plan) {
    c.note([&] { std::string s = "Semaphore(" + std::to_string(start) + "); "; for (auto &t : plan) { s += "thread:"; for (auto *o : t) s += std::string(" ") + o->name; s += "; "; } return s; });
    if (!completes(plan, std::vector<size_t>(plan.size(), 0), start)) throw mc::Skip();
    struct Call { const Op *op; int got; }; std::vector<Call> calls; std::vector<sched::Span> span; int end = 0;
    for (auto &t : plan) for (auto *o : t) { calls.push_back({o, 0}); span.push_back({}); }
    sched::run(c, bound, [&] {
        Semaphore *s = new Semaphore(start); int at = 0;
        for (size_t t = 0; t < plan.size(); t++) {
            int first = at; at += (int)plan[t].size();
            sched::spawn([&, s, first, t] { for (size_t k = 0; k < plan[t].size(); k++) { if (k) sched::point(); auto &p = span[first + k]; long t0 = sched::now(); p.inv = sched::tick(); int r = plan[t][k]->f(*s); p.res = sched::tick(); calls[first + k].got = r; if (plan[t][k]->kind == TIMED && !r) c.check(sched::now() - t0 >= 50000000, "tryAcquire with a timeout of 50 ms gave up earlier"); } });
        }
        sched::joinAll(); end = s->availablePermits(); delete s;
    });
    c.outcome(end);
    struct M { int n, k; bool operator<(const M &o) const { return std::tie(n, k) < std::tie(o.n, o.k); } };
    bool ok = sched::linearizable(span, M{start, 0}, [&](M &m, int i) { if (!step(m.n, *calls[i].op, calls[i].got)) return false; m.k++; return m.k < (int)calls.size() || m.n == end; });
    c.checkf(ok, [&] { std::string s = "no order of the calls explains the results:"; for (auto &k : calls) s += " " + std::string(k.op->name) + " = " + std::to_string(k.got) + ","; return s + " and finally " + std::to_string(end) + " permits"; });
}
SCENARIO(pairs, "every pair of 13 calls in two threads", 0, 3, 5) {
    int n = c.choose(4), i = c.choose(NOPS), j = i + c.choose(NOPS - i);
    go(c, depth, n, {{&OPS[i]}, {&OPS[j]}});
}
SCENARIO(two, "two calls each in two threads", 0, 1, 2) {
    int n = c.choose(3), k = c.thorough ? 10 : 9; Plan p(2); int a[4]; for (int &x : a) x = c.choose(k);
    if (a[0] * k + a[1] > a[2] * k + a[3]) throw mc::Skip();
    p[0] = {&OPS[a[0]], &OPS[a[1]]}; p[1] = {&OPS[a[2]], &OPS[a[3]]}; go(c, depth, n, p);
}
SCENARIO(three, "three threads with a call each", 0, 1, 2) {
    int n = c.choose(3), k = 9, x = c.choose(k), y = x + c.choose(k - x), z = y + c.choose(k - y);
    go(c, depth, n, {{&OPS[x]}, {&OPS[y]}, {&OPS[z]}});
}
SCENARIO(trio, "three threads with a call each, chosen from the basic ones", 0, 2, 3) {
    static const int K[] = {0, 1, 3, 5}; int n = c.choose(2), x = c.choose(4), y = x + c.choose(4 - x), z = y + c.choose(4 - y);
    go(c, depth, n, {{&OPS[K[x]]}, {&OPS[K[y]]}, {&OPS[K[z]]}});
}
SCENARIO(four, "two waiting threads and two that release", 0, 1, 2) {
    int n = c.choose(2), x = c.choose(5), y = x + c.choose(5 - x);
    static const int W[] = {0, 3, 5, 6, 10}, R[] = {1, 4};
    go(c, depth, n, {{&OPS[W[x]]}, {&OPS[W[y]]}, {&OPS[R[c.choose(2)]]}, {&OPS[R[c.choose(2)]]}});
}
SCENARIO(waves, "one thread waits for three permits released one by one", 0, 2, 4) {
    go(c, depth, 0, {{&OPS[c.flip() ? 11 : 3]}, {&OPS[1], &OPS[1]}, {&OPS[1]}});
}
SCENARIO(exclusion, "what is done between acquire and release is done by one thread at a time", 0, 2, 3) {
    int threads = c.range(2, 3), rounds = threads == 2 ? 2 : 1; bool timed = c.flip();
    c.note([&] { return std::to_string(threads) + " threads, " + std::to_string(rounds) + " rounds each, " + (timed ? "tryAcquire(1, 1000000)" : "acquire()"); });
    sched::run(c, depth, [&] {
        Semaphore *s = new Semaphore(1); int *in = new int(0), *sum = new int(0);
        for (int t = 0; t < threads; t++) sched::spawn([=, &c] { for (int k = 0; k < rounds; k++) { if (timed) { if (!s->tryAcquire(1, 1000000)) continue; } else s->acquire(); c.eq(++*in, 1, "threads inside"); ++*sum; sched::point(); c.eq(*in, 1, "threads inside"); --*in; s->release(); } });
        sched::joinAll(); if (!timed) c.eq(*sum, threads * rounds, "rounds"); c.eq(s->availablePermits(), 1, "permits"); delete s; delete in; delete sum;
    });
}
SCENARIO(handover, "what is done before release is seen after acquire", 0, 2, 4) {
    int how = c.choose(3);
    sched::run(c, depth, [&] {
        Semaphore *s = new Semaphore(0); int *data = new int(0), *back = new int(0), got = 0; Semaphore *r = new Semaphore();
        sched::spawn([=] { *data = 41; s->release(); r->acquire(); *data += *back; });
        sched::spawn([=, &got] { if (how == 0) s->acquire(); else if (how == 1) { if (!s->tryAcquire(1, 1000000)) s->acquire(); } else while (!s->tryAcquire()) sched_yield(); got = *data; *back = 1; r->release(); });
        sched::joinAll(); c.eq(got, 41, "value handed over"); c.eq(*data, 42, "value handed back"); delete s; delete r; delete data; delete back;
    });
}
SCENARIO(timeout, "a timed wait ends at its time, whatever wakes it before", 0, 1, 3) {
    int timeout = c.pick({1, 100, 250}), need = c.range(1, 3), gifts = c.choose(3), each = c.range(1, 2), gap = c.pick({30, 60});
    c.note([&] { return "tryAcquire(" + std::to_string(need) + ", " + std::to_string(timeout) + "); another thread releases " + std::to_string(each) + " permits " + std::to_string(gifts) + " times, each after " + std::to_string(gap) + " ms"; });
    sched::run(c, depth, [&] {
        Semaphore *s = new Semaphore(0); int r = -1; long begin = 0, end = 0; bool late = false;
        sched::spawn([&] { for (int k = 0; k < gifts; k++) { struct timespec t = {0, gap * 1000000L}; nanosleep(&t, nullptr); s->release(each); } if (sched::now() > timeout * 1000000L) late = true; });
        sched::spawn([&] { begin = sched::now(); r = s->tryAcquire(need, timeout); end = sched::now(); });
        sched::joinAll();
        int before = gifts * each; bool fits = gifts * gap < timeout;
        if (!r) c.check(end - begin >= timeout * 1000000L, "gave up before its time");
        if (depth == 0 && !late && !r) c.check(end - begin <= (timeout + 5) * 1000000L, "went on waiting after its time");
        if (!late && fits && before >= need) c.eq(r, 1, "tryAcquire although the permits came in time");
        if (before < need) c.eq(r, 0, "tryAcquire without the permits");
        c.eq(s->availablePermits(), before - (r ? need : 0), "permits left"); c.outcome(r * 2 + late); delete s;
    });
}
SCENARIO(endless, "very long timeouts", 0, 2, 3) {
    long t = c.pick({9223372036854775807L, 9223372036854L, 4611686018427387904L, 86400000000L, 2147483648L}); int n = c.range(1, 2);
    c.note([&] { return "tryAcquire(" + std::to_string(n) + ", " + std::to_string(t) + ")"; });
    sched::run(c, depth, [&] {
        Semaphore *s = new Semaphore(0); int r = -1; long end = 0;
        sched::spawn([&] { struct timespec x = {0, 1000000L}; nanosleep(&x, nullptr); s->release(2); });
        sched::spawn([&] { r = s->tryAcquire(n, t); end = sched::now(); });
        sched::joinAll(); if (!r) c.check(end >= std::min(t / 2, 1000000000000L) * 1000000L, "gave up before its time"); delete s;
    });
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
