// T04: what is put into a ConcurrentLinkedQueue comes out once, in order, under every schedule.
// Built with NATIVE_MODEL_CHECKING, so that blocks hold two elements and the tables of blocks and producers begin small.
#include "mcsched.hpp"
#include "jn.hpp"
#include <algorithm>
#include <deque>
#include "library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp"
using namespace jav;
using Java::Util::Concurrent::ConcurrentLinkedQueue;
static long alive;
// An element with memory of its own: use after destruction, double destruction and leaks show, and races on what it owns.
struct Owned {
    int *p;
    explicit Owned(int n = 0) : p(new int(n)) { sched::Quiet q; alive++; }
    Owned(const Owned &o) : p(new int(*o.p)) { sched::Quiet q; alive++; }
    Owned &operator=(const Owned &o) { *p = *o.p; return *this; }
    ~Owned() { delete p; sched::Quiet q; alive--; }
    bool operator==(const Owned &o) const { return *p == *o.p; }
};
// The same, moved without exceptions: the queue takes other paths for such elements.
struct Moved {
    int *p;
    explicit Moved(int n = 0) : p(new int(n)) { sched::Quiet q; alive++; }
    Moved(const Moved &o) : p(new int(*o.p)) { sched::Quiet q; alive++; }
    Moved(Moved &&o) noexcept : p(o.p) { o.p = nullptr; sched::Quiet q; alive++; }
    Moved &operator=(Moved &&o) noexcept { delete p; p = o.p; o.p = nullptr; return *this; }
    ~Moved() { delete p; sched::Quiet q; alive--; }
    bool operator==(const Moved &o) const { return *p == *o.p; }
};
template<class E> struct Item { static E to(int n) { return (E)n; } static int from(const E &e) { return (int)e; } };
template<> struct Item<Owned> { static Owned to(int n) { return Owned(n); } static int from(const Owned &o) { return *o.p; } };
template<> struct Item<Moved> { static Moved to(int n) { return Moved(n); } static int from(const Moved &o) { return *o.p; } };
template<> struct Item<String> {
    static String to(int n) { return J("element " + std::to_string(n) + " with a text too long to be stored inside"); }
    static int from(const String &s) { sched::Quiet q; std::string t = s.toSTLString(); return t.empty() ? 0 : t.compare(0, 8, "element ") ? -1 : atoi(t.c_str() + 8); }
};
// Programs are texts: a add, o offer, p poll, s size, e isEmpty, c clear.
static const char *word(char c) { switch (c) { case 'a': return "add"; case 'o': return "offer"; case 'p': return "poll"; case 's': return "size"; case 'e': return "isEmpty"; default: return "clear"; } }
static std::string describe(const std::vector<std::string> &plan, int before) {
    std::string s = std::to_string(before) + " elements;"; for (auto &t : plan) { s += " thread:"; for (char c : t) s += std::string(" ") + word(c) + ","; s.back() = ';'; } return s;
}
struct Done { char op; int thread, value; sched::Span span; };
struct Plan { std::vector<std::string> threads; int before = 0, used = 0; };   // elements put in before, elements that went through before that
static void judge(mc::Ctx &c, const std::vector<Done> &all, const std::vector<int> &rest) {
    auto before = [](const Done &a, const Done &b) { return a.span.res < b.span.inv; }; auto isAdd = [](const Done &d) { return d.op == 'a' || d.op == 'o'; }; auto takes = [](const Done &d) { return d.op == 'p' || d.op == 'c'; };
    std::map<int, const Done *> add, poll; bool clear = false; for (auto &d : all) { if (isAdd(d)) add[d.value] = &d; if (d.op == 'c') clear = true; }
    auto el = [](int v) { return "element " + std::to_string(v % 10 + 1) + " of thread " + std::to_string(v / 10); };
    for (auto &d : all) if (d.op == 'p' && d.value) {
        c.checkf(add.count(d.value), [&] { return "poll() gave " + std::to_string(d.value) + ", which was never added"; }); c.checkf(!poll.count(d.value), [&] { return el(d.value) + " was polled twice"; });
        c.checkf(!before(d, *add[d.value]), [&] { return el(d.value) + " was polled before it was added"; }); poll[d.value] = &d;
    }
    std::set<int> left; for (int v : rest) { c.checkf(add.count(v) && !poll.count(v) && left.insert(v).second, [&] { return el(v) + " was still in the queue although it had been polled, or twice"; }); }
    for (auto &a : add) if (!poll.count(a.first) && !left.count(a.first)) { bool may = false; for (auto &d : all) may = may || (d.op == 'c' && !before(d, *a.second)); c.checkf(may, [&] { return el(a.first) + " is lost"; }); }
    // the elements of one thread come in their order
    for (auto &x : add) for (auto &y : add) if (x.first < y.first && x.second->thread == y.second->thread) {
        if (poll.count(y.first)) c.checkf(!left.count(x.first) && !(poll.count(x.first) && before(*poll[y.first], *poll[x.first])), [&] { return el(y.first) + " was polled before " + el(x.first); });
    }
    for (size_t i = 0; i < rest.size(); i++) for (size_t j = 0; j < i; j++) c.checkf(add[rest[i]]->thread != add[rest[j]]->thread || rest[j] < rest[i], [&] { return el(rest[j]) + " came out before " + el(rest[i]); });
    for (auto &d : all) {
        bool alone = true; for (auto &e : all) if (&e != &d && takes(e) && !before(d, e) && !before(e, d)) alone = false;
        if (d.op == 'p' && !d.value && alone && !clear) { int n = 0; for (auto &e : all) { if (isAdd(e) && before(e, d)) n++; if (e.op == 'p' && e.value && before(e, d)) n--; } c.checkf(n <= 0, [&] { return "poll() found nothing although " + std::to_string(n) + " elements were there and nobody else took any"; }); }
        if (d.op == 'c' && alone) for (int v : rest) c.checkf(!before(*add[v], d), [&] { return el(v) + " was added before clear() and is still there"; });
        if ((d.op == 's' || d.op == 'e') && !clear) {
            int low = 0, high = 0; for (auto &e : all) { if (isAdd(e)) { if (before(e, d)) low++; if (!before(d, e)) high++; } if (e.op == 'p' && e.value) { if (!before(d, e)) low--; if (before(e, d)) high--; } } low = std::max(low, 0);
            if (d.op == 's') c.checkf(d.value >= low && d.value <= high, [&] { return "size() = " + std::to_string(d.value) + " although there were between " + std::to_string(low) + " and " + std::to_string(high) + " elements"; });
            else c.check(!(d.value && low > 0) && !(!d.value && high == 0), "isEmpty() is wrong at all times");
        }
    }
}
template<class E> static void go(mc::Ctx &c, int bound, const Plan &plan) {
    std::vector<Done> done; int count = plan.before; for (auto &t : plan.threads) count += (int)t.size(); done.resize(count);
    std::vector<int> rest; alive = 0; typedef ConcurrentLinkedQueue<E> Q; typedef Item<E> X;
    sched::run(c, bound, [&] {
        Q *q = new Q; int at = 0;
        auto run = [&, q](int thread, const std::string &ops, int at) {
            for (size_t i = 0; i < ops.size(); i++) {
                if (i) sched::point(); Done &d = done[at + i]; d.op = ops[i]; d.thread = thread; int v = thread * 10 + (int)i + 0, r = 0; d.span.inv = sched::tick();
                switch (ops[i]) {
                    case 'a': { bool ok = q->add(X::to(v)); c.check(ok, "add() is false"); r = v; } break;
                    case 'o': { bool ok = q->offer(X::to(v)); c.check(ok, "offer() is false"); r = v; } break;
                    case 'p': r = X::from(q->poll()); break;
                    case 's': r = q->size(); break;
                    case 'e': r = q->isEmpty() ? 1 : 0; break;
                    default: q->clear();
                }
                d.span.res = sched::tick(); d.value = r;
            }
        };
        if (plan.used) { int n = plan.used; sched::spawn([n, q] { for (int i = 0; i < n; i++) q->add(X::to(i + 1)); for (int i = 0; i < n; i++) q->poll(); }); sched::joinAll(); }
        if (plan.before) { sched::spawn([&] { run(1, std::string(plan.before, 'a'), 0); }); sched::joinAll(); at = plan.before; }
        int n = 2; for (auto &t : plan.threads) { auto *pt = &t; int first = at, id = n++; at += (int)t.size(); sched::spawn([&, pt, first, id] { run(id, *pt, first); }); }
        sched::joinAll();
        int size = q->size(); bool empty = q->isEmpty();
        for (int i = 0; i < count + 2; i++) { int v = X::from(q->poll()); if (!v) break; sched::Quiet z; rest.push_back(v); }
        c.eq(size, (int)rest.size(), "size() when all is done"); c.eq(empty, rest.empty(), "isEmpty() when all is done"); c.eq((int)q->size(), 0, "size() of the emptied queue"); c.eq(X::from(q->poll()), 0, "poll() of the emptied queue");
        delete q; c.eq(alive, 0L, "elements that were not destroyed");
    });
    uint64_t h = 0; for (auto &d : done) h = mc::mix(h, d.value); c.outcome(h);
    judge(c, done, rest);
}
// all programs of up to n calls
static std::vector<std::string> programs(const std::string &letters, int n, int least = 1) {
    std::vector<std::string> r, last{""}; for (int i = 1; i <= n; i++) { std::vector<std::string> next; for (auto &s : last) for (char x : letters) next.push_back(s + x); if (i >= least) r.insert(r.end(), next.begin(), next.end()); last = next; } return r;
}
static void pairOf(mc::Ctx &c, int depth, const std::string &letters, int calls, bool text) {
    static std::map<std::string, std::vector<std::string>> cache; auto &p = cache[letters + std::to_string(calls)]; if (p.empty()) p = programs(letters, calls);
    Plan plan; plan.before = c.choose(4); int i = c.choose((int)p.size()), j = c.choose((int)p.size()); if (j < i) throw mc::Skip(); plan.threads = {p[i], p[j]};
    c.note([&] { return describe(plan.threads, plan.before); });
    if (text) go<String>(c, depth, plan); else go<Owned>(c, depth, plan);
}
SCENARIO(pairs, "two threads with one or two of four (six) calls each, beginning with 0 to 3 elements", 0, 1, 2) { pairOf(c, depth, c.thorough ? "aopsec" : "apsc", 2, false); }
SCENARIO(core_pairs, "two threads with one or two calls of add and poll (and clear)", 2, 2, 3) { pairOf(c, depth, c.thorough && depth < 3 ? "apc" : "ap", 2, false); }
SCENARIO(texts, "the same with String elements", 0, 1, 2) { pairOf(c, depth, "apc", 2, true); }
SCENARIO(long_pairs, "two threads with exactly three (four) calls of add and poll", 0, 1, 2) {
    int n = c.thorough ? 4 : 3; static auto p = programs("ap", n, n); Plan plan; plan.before = c.pick({0, 1, 3}); int i = c.choose((int)p.size()), j = c.choose((int)p.size()); if (j < i) throw mc::Skip(); plan.threads = {p[i], p[j]};
    c.note([&] { return describe(plan.threads, plan.before); }); go<Owned>(c, depth, plan);
}
SCENARIO(three, "three threads with one or two calls of add and poll", 0, 1, 2) {
    static auto p = programs("ap", 2); Plan plan; plan.before = c.choose(3); int k = (int)p.size(), i = c.choose(k), j = c.choose(k), l = c.choose(k); if (j < i || l < j) throw mc::Skip(); plan.threads = {p[i], p[j], p[l]};
    c.note([&] { return describe(plan.threads, plan.before); }); go<Owned>(c, depth, plan);
}
SCENARIO(blocks, "elements cross from block to block, blocks are used again", 0, 1, 2) {
    Plan plan; bool moved = c.choose(2); plan.used = c.thorough ? c.pick({0, 2, 3, 9, 14}) : moved ? c.pick({3, 14}) : c.pick({0, 2, 3, 9}); plan.before = c.pick({0, 1, 2, 4, 5}); static const char *const P[][3] = {{"aaaaa", "ppppp", ""}, {"ppp", "ppp", ""}, {"aaa", "aaa", ""}, {"apapap", "pp", ""}, {"aaa", "pp", "pp"}, {"aapp", "aapp", ""}, {"p", "paaaa", ""}, {"p", "p", "aaaa"}}; auto &p = P[c.thorough ? c.choose(8) : moved ? c.pick({4, 6, 7}) : c.choose(6)];
    for (int i = 0; i < 3; i++) if (*p[i]) plan.threads.push_back(p[i]);
    c.note([&] { return std::to_string(plan.used) + " elements went through before; " + describe(plan.threads, plan.before) + (moved ? " elements that move" : ""); }); if (moved) go<Moved>(c, depth, plan); else go<Owned>(c, depth, plan);
}
SCENARIO(producers, "two or three (four) threads add their first element at the same time, while another polls", 0, 1, 2) {
    int n = c.range(2, c.thorough ? 4 : 3), polls = c.choose(2); Plan plan; plan.before = c.choose(2); for (int i = 0; i < n; i++) plan.threads.push_back(i == 0 ? "aa" : "a"); if (polls) plan.threads.push_back("pp");
    c.note([&] { return describe(plan.threads, plan.before); }); go<int>(c, depth, plan);
}
SCENARIO(destroyed, "a queue with elements is destroyed after its threads have ended", 0, 1, 2) {
    int n = c.range(0, 6), gone = c.choose(4), m = c.choose(3); c.note([&] { return std::to_string(n) + " elements added, " + std::to_string(gone) + " polled, " + std::to_string(m) + " added by another thread"; });
    alive = 0; sched::run(c, depth, [&] {
        auto *q = new ConcurrentLinkedQueue<Owned>; sched::spawn([=] { for (int i = 0; i < n; i++) q->add(Owned(i + 1)); for (int i = 0; i < gone; i++) q->poll(); }); sched::spawn([=] { for (int i = 0; i < m; i++) q->add(Owned(i + 1)); });
        sched::joinAll(); c.eq((int)q->size(), std::max((int)q->size(), n + m - gone), "size()"); delete q; c.eq(alive, 0L, "elements that were not destroyed");
    });
}
SCENARIO(handover, "what was written before add is seen by who polls the element", 0, 2, 3) {
    int n = c.range(1, 3); c.note([&] { return std::to_string(n) + " elements"; });
    sched::run(c, depth, [&] {
        auto *q = new ConcurrentLinkedQueue<int *>; int *data = new int[3](); sched::spawn([=] { for (int i = 0; i < n; i++) { data[i] = 42 + i; q->add(&data[i]); } });
        sched::spawn([=, &c] { for (int i = 0; i < 2; i++) if (int *p = q->poll()) c.eq(*p, 42 + (int)(p - data), "what it points to"); }); sched::joinAll(); delete q; delete[] data;
    });
}
// One thread: a queue, exactly.
SCENARIO(histories, "all sequences of six calls by one thread, against std::deque", 4, 6, 8) {
    typedef ConcurrentLinkedQueue<String> Q; std::string ops; for (int i = 0; i < depth; i++) ops += "aopsec"[c.choose(6)]; c.note([&] { return describe({ops}, 0); });
    sched::run(c, 0, [&] { sched::spawn([&] {
        Q *q = new Q; std::deque<int> m; int n = 0;
        for (char o : ops) switch (o) {
            case 'a': c.check(q->add(Item<String>::to(++n)), "add() is false"); m.push_back(n); break;
            case 'o': c.check(q->offer(Item<String>::to(++n)), "offer() is false"); m.push_back(n); break;
            case 'p': { int want = m.empty() ? 0 : m.front(); if (want) m.pop_front(); c.eq(Item<String>::from(q->poll()), want, "poll()"); } break;
            case 's': c.eq((int)q->size(), (int)m.size(), "size()"); break;
            case 'e': c.eq((bool)q->isEmpty(), m.empty(), "isEmpty()"); break;
            default: q->clear(); m.clear();
        }
        c.eq((int)q->size(), (int)m.size(), "size() at the end"); delete q; uint64_t h = 0; for (int x : m) h = mc::mix(h, x); c.state(mc::mix(h, m.size()));
    }); sched::joinAll(); });
}
SCENARIO(many, "up to 200 elements go through in rounds of different sizes, by one thread", 1, 1, 1) {
    int in = c.pick({1, 2, 3, 7, 40}), out = c.pick({1, 2, 3, 7, 40}); c.note([&] { return "rounds of " + std::to_string(in) + " in, " + std::to_string(out) + " out"; });
    sched::run(c, 0, [&] { sched::spawn([&] {
        auto *q = new ConcurrentLinkedQueue<int>; std::deque<int> m; int n = 0;
        while (n < 200) { for (int i = 0; i < in; i++) { q->add(++n); m.push_back(n); } c.eq((int)q->size(), (int)m.size(), "size()"); for (int i = 0, extra = 2; i < out && (!m.empty() || extra--); i++) { int want = m.empty() ? 0 : m.front(); if (want) m.pop_front(); c.eq((int)q->poll(), want, "poll()"); } }
        while (!m.empty()) { c.eq((int)q->poll(), m.front(), "poll()"); m.pop_front(); } c.eq((int)q->poll(), 0, "poll()"); c.check(q->isEmpty(), "isEmpty()"); delete q;
    }); sched::joinAll(); });
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
