// A controlled scheduler for real threads.
//
// The library and the harness are compiled with -fsanitize=thread; instead of ThreadSanitizer's run time this
// file is linked, so that every memory access and every atomic operation of that code calls a function here, and
// the pthread functions it uses are defined here as well.  Exactly one thread runs at a time; before every
// synchronising operation the running thread decides with Ctx::choose who goes on.  Together with the engine of
// mc.hpp this enumerates all schedules with at most `bound` preemptions.  Plain accesses are not scheduling
// points: they are checked for data races with vector clocks, and without data races their order does not matter.
#include "mcsched.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unordered_map>

extern "C" { void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t); }

namespace {
const int MAXT = 12;
const size_t STACK = 512 * 1024;
alignas(4096) char stacks[MAXT][STACK];
__thread int me = -1;
__thread int inside = 0;

struct VC { unsigned c[MAXT]; void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum Status { FREE, READY, MUTEX, COND, JOIN, SLEEP, RWLOCK, SEM, ONCE, DONE };
const char *const DOING[] = {"", "ready", "waiting for a mutex", "waiting on a condition", "joining a thread", "sleeping", "waiting for a lock", "waiting for a semaphore", "waiting for a one-time initialisation", "ended"};
struct Thread {
    Status st; void *on; void *mutex; long deadline; bool timed, woken, timedOut; int target;
    std::atomic<int> baton; pthread_t real; bool joined, detached, harness; void *(*fn)(void *); void *arg; void *ret;
    VC vc, acq, rel; uint64_t epoch; int rounds, slice; bool yielded;
    struct Seen { void *pc; uintptr_t a; uint64_t v; int n; } seen[8]; int nseen; uint64_t seenEpoch; bool calm;
};
Thread T[MAXT];
int N, cur, used, bound, live, made;
mc::Ctx *ctx;
std::atomic<bool> active{false};
uint64_t ticks, writes, steps;
long vnow, clockStep = 1000;
size_t bytes;
const long BASE_MONO = 1000000000000000L, BASE_REAL = 1600000000000000000L;
struct Obj { int owner = -1, count = 0; VC vc{}; int name = 0; int value = 0; };
std::unordered_map<uintptr_t, Obj> *objs;
std::unordered_map<uintptr_t, VC> *atoms;
std::vector<void *> *quarantine;
int names;

// --- shadow memory for data races -------------------------------------------------------------------------
struct Entry { unsigned clk; unsigned char tid, mask, kind; void *pc; };  // kind: 1 write, 2 atomic, 4 freed
struct Cell { uintptr_t key; unsigned gen; int n; Entry e[6]; };
const size_t CELLS = 1 << 20;
Cell *cells; unsigned gen = 0; size_t cellsUsed;

void (*real_exit)(int) = _exit;
int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int (*r_join)(pthread_t, void **);
int (*r_lock)(pthread_mutex_t *), (*r_trylock)(pthread_mutex_t *), (*r_unlock)(pthread_mutex_t *), (*r_mdestroy)(pthread_mutex_t *);
int (*r_clock)(clockid_t, struct timespec *);
int (*r_nanosleep)(const struct timespec *, struct timespec *);
pthread_key_t key; bool keyMade;
template<class F> void real(F &f, const char *n) { if (!f) f = (F)dlsym(RTLD_NEXT, n); }

struct In { In() { inside++; } ~In() { inside--; } };
inline bool managed() { return me >= 0 && !inside; }
inline void *PC(void *p) { return p; }

std::string at(void *pc) { char b[40]; snprintf(b, 40, "@%p", pc); return b; }
std::string who(int t) { return "thread " + std::to_string(t); }
void note(const std::string &s) { if (ctx->logging && (N > 1 || live > 1)) ctx->log.push_back(who(me) + ": " + s); }
[[noreturn]] void die(const std::string &what) { In in; ctx->die(what); }
std::string state() {
    std::string s;
    for (int i = 0; i < N; i++) s += (i ? ", " : "") + who(i) + " " + DOING[T[i].st] + (T[i].st == JOIN ? " " + std::to_string(T[i].target) : "");
    return s;
}

long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r; register long r10 asm("r10") = d, r8 asm("r8") = e, r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
void futexWait(std::atomic<int> *a, int v) { raw(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
void futexWake(std::atomic<int> *a) { raw(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
void waitBaton(int t) { while (!T[t].baton.load()) futexWait(&T[t].baton, 0); T[t].baton.store(0); }
void giveBaton(int t) { T[t].baton.store(1); futexWake(&T[t].baton); }

Obj &obj(const void *p) { Obj &o = (*objs)[(uintptr_t)p]; if (!o.name) o.name = ++names; return o; }
std::string called(const void *p) { return "#" + std::to_string(obj(p).name); }
bool mutexFree(void *m) { auto it = objs->find((uintptr_t)m); return it == objs->end() || it->second.owner < 0; }

bool enabled(int t) {
    Thread &x = T[t];
    switch (x.st) {
        case READY: return true;
        case MUTEX: return mutexFree(x.on) || obj(x.on).owner == t;
        case JOIN: return T[x.target].st == DONE;
        case COND: return x.woken && mutexFree(x.mutex);
        case RWLOCK: return x.target ? (obj(x.on).owner < 0 && obj(x.on).count == 0) : obj(x.on).owner < 0;
        case SEM: return obj(x.on).value > 0;
        case ONCE: return obj(x.on).owner < 0;
        default: return false;
    }
}
bool timer(int t) { Thread &x = T[t]; return x.deadline - vnow < 1000000000000000000L && (x.st == SLEEP || ((x.st == COND || x.st == SEM || x.st == MUTEX) && x.timed && !x.woken && !x.timedOut)) && !(x.st == COND && !mutexFree(x.mutex)); }
bool spinning(int t) { return T[t].yielded && T[t].epoch == writes; }

// Decides which thread runs next; returns when the caller does.
void schedule(bool mayGoOn, bool yielded = false) {
    int c = me; std::vector<std::pair<int, int>> opt;  // thread, how: 0 goes on, 1 its time is up, 2 spurious wakeup
    if (++steps > 100000) die("no progress: one execution takes more than 100000 steps (" + state() + ")");
    Thread &y = T[c]; if (mayGoOn && ++y.slice > 300) yielded = true;
    if (yielded) { y.yielded = true; y.epoch = writes; y.slice = 0; }
    bool can = mayGoOn && !spinning(c);
    if (can && (used >= bound || y.calm)) return;
    if (can) opt.push_back({c, 0});
    for (int k = 1; k <= N; k++) { int t = (c + k) % N; if (t == c && mayGoOn) continue; if (enabled(t) && !spinning(t)) opt.push_back({t, 0}); }
    if (!can || used < bound) for (int t = 0; t < N; t++) if (t != c || !mayGoOn) if (timer(t)) opt.push_back({t, 1});
    if (used < bound) for (int t = 0; t < N; t++) if (T[t].st == COND && !T[t].woken && mutexFree(T[t].mutex)) opt.push_back({t, 2});
    if (!can) { bool real = false; for (auto &o : opt) real = real || o.second != 2; if (!real) {  // only threads that spin, if any
        for (int k = 1; k <= N; k++) { int t = (c + k) % N; if ((t == c && mayGoOn) || (t != c && enabled(t))) { opt.insert(opt.begin(), {t, 0}); T[t].yielded = false; vnow += 1000000; if (++T[t].rounds > 2000) die("no progress: every thread that could run waits for another in a loop (" + state() + ")"); break; } }
        if (opt.empty() || opt[0].second == 2) die("deadlock: " + state());
    } }
    int k = 0; try { k = ctx->choose((int)opt.size()); } catch (mc::Violation &v) { die(v.what); }
    int t = opt[k].first;
    if ((can && k > 0) || opt[k].second == 2) used++;
    Thread &x = T[t];
    if (opt[k].second == 1) { if (x.deadline > vnow) vnow = x.deadline; x.timedOut = true; if (x.st == COND) x.woken = true; else x.st = READY; if (ctx->logging) ctx->log.push_back(who(t) + ": its time is up"); }
    if (opt[k].second == 2) { x.woken = true; if (ctx->logging) ctx->log.push_back(who(t) + ": wakes up without being notified"); }
    if (t != c) { if (ctx->logging) ctx->log.push_back("-- " + who(t) + " runs" + (can ? " (preempting " + who(c) + ")" : "")); cur = t; x.slice = 0; giveBaton(t); if (T[c].st != DONE) waitBaton(c); }
}
// Blocks the caller until enabled(me) holds and it is chosen.
void block(Status st, void *on) { Thread &x = T[me]; x.st = st; x.on = on; schedule(enabled(me)); x.st = READY; }
void before(const std::string &what, void *pc) { (void)pc; schedule(true); if (ctx->logging && !what.empty()) note(what + " " + at(pc)); ticks++; }

void release(VC &to) { to.join(T[me].vc); T[me].vc.c[me]++; }
void acquire(const VC &from) { T[me].vc.join(from); }

// --- races ------------------------------------------------------------------------------------------------
Cell &cell(uintptr_t k) {
    for (size_t i = (k * 0x9E3779B97F4A7C15ull) >> 44;; i = (i + 1) & (CELLS - 1)) {
        Cell &c = cells[i];
        if (c.gen != gen) { if (++cellsUsed > CELLS / 2) die("harness error: shadow memory exhausted"); c.gen = gen; c.key = k; c.n = 0; return c; }
        if (c.key == k) return c;
    }
}
Cell *find(uintptr_t k) {
    for (size_t i = (k * 0x9E3779B97F4A7C15ull) >> 44;; i = (i + 1) & (CELLS - 1)) { Cell &c = cells[i]; if (c.gen != gen) return nullptr; if (c.key == k) return &c; }
}
const char *kindName(int k) { return k & 4 ? "freeing" : k & 2 ? (k & 1 ? "an atomic write" : "an atomic read") : k & 1 ? "a write" : "a read"; }
void touch(uintptr_t k, unsigned char mask, int kind, void *pc) {
    Cell &c = cell(k); const VC &vc = T[me].vc; int out = 0;
    for (int i = 0; i < c.n; i++) {
        Entry &e = c.e[i]; bool ordered = e.tid == me || e.clk <= vc.c[e.tid];
        if (e.mask & mask) {
            if (e.kind & 4) die(std::string(ordered ? "use of freed memory: " : "data race: ") + kindName(kind) + " by " + who(me) + " " + at(pc) + ", freed by " + who(e.tid) + " " + at(e.pc));
            if (!ordered && ((e.kind | kind) & 1) && !((e.kind & 2) && (kind & 2))) die(std::string("data race: ") + kindName(kind) + " by " + who(me) + " " + at(pc) + " and " + kindName(e.kind) + " by " + who(e.tid) + " " + at(e.pc));
        }
        // covered by the new entry: ordered before it, no wider, and no stronger
        bool drop = ordered && !(e.mask & ~mask) && ((kind & 1) || !(e.kind & 1)) && (!(kind & 2) || (e.kind & 2));
        if (!drop) c.e[out++] = e;
    }
    c.n = out;
    if (c.n == 6) { memmove(c.e, c.e + 1, 5 * sizeof(Entry)); c.n = 5; }
    c.e[c.n++] = Entry{T[me].vc.c[me], (unsigned char)me, mask, (unsigned char)kind, pc};
}
void access(uintptr_t a, size_t n, int kind, void *pc) {
    while (n) { size_t o = a & 7, k = std::min(n, 8 - o); touch(a >> 3, (unsigned char)(((1u << k) - 1) << o), kind, pc); a += k; n -= k; }
}
inline void plain(void *p, size_t n, int kind, void *pc) { if (me < 0 || inside || live < 2) return; In in; access((uintptr_t)p, n, kind, pc); }

// --- threads ----------------------------------------------------------------------------------------------
void finish(void *) {  // a pthread key's destructor: after the destructors of thread_local objects
    if (me < 0) return;
    inside = 1; Thread &x = T[me]; note("ends"); x.st = DONE; x.vc.c[me]++; live--; ticks++; int m = me;
    schedule(false); (void)m; me = -1; inside = 0;
}
void *start(void *p) {
    int t = (int)(intptr_t)p; inside = 1; me = t; pthread_setspecific(key, (void *)1); waitBaton(t); note("starts"); inside = 0;
    T[t].ret = T[t].fn(T[t].arg); return nullptr;
}
int create(pthread_t *th, void *(*fn)(void *), void *arg, bool detached, bool harness, void *pc) {
    In in; if (N >= MAXT) die("harness error: too many threads");
    int t = N; Thread &x = T[t]; x.st = READY; x.fn = fn; x.arg = arg; x.joined = false; x.detached = detached; x.harness = harness; x.baton.store(0); x.nseen = 0; x.seenEpoch = 0; x.yielded = x.calm = false; x.rounds = x.slice = 0; x.timed = x.woken = x.timedOut = false;
    T[me].vc.c[me]++; x.vc = T[me].vc; memset(&x.acq, 0, sizeof x.acq); memset(&x.rel, 0, sizeof x.rel); x.vc.c[t] = 1; T[me].vc.c[me]++;
    pthread_attr_t at_; pthread_attr_init(&at_); pthread_attr_setstack(&at_, stacks[t], STACK);
    N++; live++; __builtin_memset(stacks[t] + STACK - 12288, 0xa5, 8192);
    if (r_create(&x.real, &at_, start, (void *)(intptr_t)t)) die("harness error: pthread_create");
    pthread_attr_destroy(&at_); if (th) *th = x.real; note("makes " + who(t) + " " + at(pc)); ticks++;
    return 0;
}
int threadOf(pthread_t h) { for (int i = 0; i < N; i++) if (i && pthread_equal(T[i].real, h)) return i; return -1; }
}  // namespace

namespace sched {
Quiet::Quiet() { inside++; }
Quiet::~Quiet() { inside--; }
uint64_t tick() { return ++ticks; }
long now() { return vnow; }
void clock(long ns) { clockStep = ns; }
void pause() { schedule(true, true); }
void calm(bool on) { T[me].calm = on; }
int self() { return me; }
int finished() { int n = 0; for (int i = 0; i < N; i++) n += T[i].st == DONE; return n; }
void log(const std::string &s) { In in; note(s); }
void point(const char *what) { In in; (void)what; before("", __builtin_return_address(0)); }
static void *bodyOf(void *p) {
    auto *f = (std::function<void()> *)p; std::string m;
    try { (*f)(); } catch (mc::Violation &v) { In in; m = v.what; } catch (std::exception &e) { In in; m = std::string("unexpected exception in a thread: ") + e.what(); } catch (...) { In in; m = "unexpected exception in a thread"; }
    if (!m.empty()) die(m);
    { In in; delete f; } return nullptr;
}
void spawn(const std::function<void()> &f) { std::function<void()> *g; { In in; g = new std::function<void()>(f); } create(nullptr, bodyOf, g, false, true, __builtin_return_address(0)); }
static void joinOne(int t) { Thread &x = T[me]; before("", nullptr); if (T[t].st != DONE) { x.target = t; block(JOIN, nullptr); } note("has joined " + who(t)); acquire(T[t].vc); T[t].joined = true; ticks++; }
void joinAll() { In in; for (int t = 1; t < N; t++) if (T[t].harness && !T[t].joined) joinOne(t); }
__attribute__((noinline)) static void clean() { char b[12288]; __builtin_memset(b, 0xa5, sizeof b); asm volatile("" : : "r"(b) : "memory"); }  // what is not initialised is the same in every execution
void run(mc::Ctx &c, int b, const std::function<void()> &body) {
    inside = 1;
    if (!cells) { try { throw std::runtime_error(""); } catch (std::exception &) { } real(r_create, "pthread_create"); real(r_join, "pthread_join"); cells = (Cell *)mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); objs = new std::unordered_map<uintptr_t, Obj>; atoms = new std::unordered_map<uintptr_t, VC>; quarantine = new std::vector<void *>; if (pthread_key_create(&key, finish)) abort(); }
    gen++; cellsUsed = 0; objs->clear(); atoms->clear(); names = 0; N = 1; cur = 0; used = 0; bound = b; live = 1; ctx = &c; ticks = writes = steps = 0; vnow = 0; clockStep = 1000; memset((void *)&T[0], 0, sizeof T[0]); T[0].st = READY; T[0].vc.c[0] = 1; me = 0; writes = 1;
    std::string bad; bool skip = false;
    clean(); inside = 0;
    try { body(); } catch (mc::Violation &v) { In in; bad = v.what; if (bad.empty()) bad = "?"; } catch (mc::Skip &) { skip = true; } catch (std::exception &e) { In in; bad = std::string("unexpected exception: ") + e.what(); } catch (...) { In in; bad = "unexpected exception of a type that is not std::exception"; }
    inside = 1;
    if (!bad.empty() && live > 1) die(bad);
    if (skip && live > 1) die("harness error: Skip with running threads");
    // Threads nobody waits for run to their ends.
    while (live > 1) { int t = 1; while (T[t].st == DONE) t++; joinOne(t); }
    for (int t = 1; t < N; t++) { void *r; r_join(T[t].real, &r); }
    me = -1; inside = 0;
    for (void *p : *quarantine) __libc_free(p);
    quarantine->clear();
    if (!bad.empty()) throw mc::Violation{bad};
    if (skip) throw mc::Skip();
}
}  // namespace sched

// ---------------------------------------------------------------------------------------------------------
// The functions the code under test calls.
// ---------------------------------------------------------------------------------------------------------
#define RA __builtin_return_address(0)
namespace {
void lockMutex(void *m, void *pc, bool recursive) {
    Obj *o = &obj(m);
    if (o->owner == me) { if (recursive) { o->count++; return; } die("deadlock: " + who(me) + " locks a mutex it holds " + at(pc)); }
    while ((o = &obj(m))->owner >= 0) block(MUTEX, m);
    o->owner = me; o->count = 1; acquire(o->vc);
    if (ctx->logging) note("locks mutex " + called(m) + " " + at(pc));
}
void unlockMutex(void *m, void *pc) {
    Obj &o = obj(m); if (o.owner != me) die("a mutex is unlocked by a thread that does not hold it: " + who(me) + " " + at(pc));
    if (--o.count) return;
    o.owner = -1; release(o.vc); ticks++; if (ctx->logging) note("unlocks mutex " + called(m));
}
bool isRecursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
void touchSync(const void *p, void *pc) { if (live > 1) access((uintptr_t)p, 8, 3, pc); }
long nsOf(const struct timespec *t) { return t->tv_sec * 1000000000L + t->tv_nsec; }
int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, long deadline, void *pc) {
    In in; touchSync(c, pc); touchSync(m, pc); before("", pc); Thread &x = T[me];
    if (ctx->logging) note("waits on condition " + called(c) + " " + at(pc));
    Obj &o = obj(m); if (o.owner != me) die("a condition is waited for without its mutex: " + who(me) + " " + at(pc));
    int depth = o.count; o.count = 1; unlockMutex(m, pc);
    x.mutex = m; x.timed = timed; x.deadline = deadline; x.woken = x.timedOut = false; block(COND, c); x.timed = false;
    touchSync(m, pc); Obj &q = obj(m); q.owner = me; q.count = depth; acquire(q.vc); ticks++;
    if (ctx->logging) note("holds mutex " + called(m) + " again");
    return x.timedOut ? ETIMEDOUT : 0;
}
void wake(pthread_cond_t *c, bool all, void *pc) {
    In in; touchSync(c, pc); before(std::string(all ? "notifies all waiters on condition " : "notifies a waiter on condition ") + (ctx->logging ? called(c) : ""), pc);
    int w[MAXT], n = 0; for (int t = 0; t < N; t++) if (T[t].st == COND && T[t].on == c && !T[t].woken) w[n++] = t;
    if (n) writes++;
    if (all) { for (int i = 0; i < n; i++) T[w[i]].woken = true; }
    else if (n) { int k = 0; try { k = ctx->choose(n); } catch (mc::Violation &v) { die(v.what); } T[w[k]].woken = true; }
}
void sleepFor(long ns, void *pc) {
    In in; if (ns <= 0) { schedule(true, true); return; }
    if (ctx->logging) note("sleeps " + std::to_string(ns / 1000) + " us " + at(pc));
    Thread &x = T[me]; x.timed = true; x.timedOut = false; x.deadline = vnow + ns; block(SLEEP, nullptr); x.timed = false; ticks++;
}
template<class R> void atomicDone(volatile R *a, R old, bool changed, void *pc) {
    Thread &x = T[me]; if (changed) { writes++; return; }
    if (x.seenEpoch != writes) { x.seenEpoch = writes; x.nseen = 0; }
    for (int i = 0; i < x.nseen; i++) if (x.seen[i].pc == pc && x.seen[i].a == (uintptr_t)a && x.seen[i].v == (uint64_t)old) { if (++x.seen[i].n >= 3) { x.seen[i].n = 0; x.yielded = true; x.epoch = writes; } return; }
    if (x.nseen < 8) { auto &s = x.seen[x.nseen++]; s.pc = pc; s.a = (uintptr_t)a; s.v = (uint64_t)old; s.n = 1; }
}
void hbLoad(const volatile void *a, int mo) { auto it = atoms->find((uintptr_t)a); if (it == atoms->end()) return; if (mo == __ATOMIC_RELAXED || mo == __ATOMIC_RELEASE) T[me].acq.join(it->second); else T[me].vc.join(it->second); }
void hbStore(const volatile void *a, int mo, bool rmw) {
    VC &v = (*atoms)[(uintptr_t)a]; bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; Thread &x = T[me];
    if (!rmw) memset(&v, 0, sizeof v);
    v.join(rel ? x.vc : x.rel); if (rel) x.vc.c[me]++;
}
void hbRmw(const volatile void *a, int mo) { hbLoad(a, mo); hbStore(a, mo, true); }
template<class R> std::string val(R v) { char b[24]; snprintf(b, 24, "%lld", (long long)v); return b; }
template<class R> void ready(const volatile void *a, int kind, void *pc) { if (live > 1) access((uintptr_t)a, sizeof(R), kind | 2, pc); before("", pc); if (live > 1) access((uintptr_t)a, sizeof(R), kind | 2, pc); }
void told(const char *what, const volatile void *a, long long from, long long to, void *pc) { if (ctx->logging) note(std::string(what) + " atomic " + called((const void *)a) + (from == to ? " = " + std::to_string(from) : ": " + std::to_string(from) + " -> " + std::to_string(to)) + " " + at(pc)); }
}  // namespace

#define ATOMICS(S, R) \
extern "C" R __tsan_atomic##S##_load(const volatile R *a, int mo) { if (!managed()) return __atomic_load_n(a, __ATOMIC_SEQ_CST); In in; ready<R>(a, 0, RA); R v = *a; hbLoad(a, mo); told("loads", a, v, v, RA); atomicDone((volatile R *)a, v, false, RA); return v; } \
extern "C" void __tsan_atomic##S##_store(volatile R *a, R v, int mo) { if (!managed()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } In in; ready<R>(a, 1, RA); R o = *a; bool first = !atoms->count((uintptr_t)a); *a = v; hbStore(a, mo, false); told("stores", a, o, v, RA); atomicDone(a, o, first || o != v, RA); } \
extern "C" R __tsan_atomic##S##_exchange(volatile R *a, R v, int mo) { if (!managed()) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); In in; ready<R>(a, 1, RA); R o = *a; *a = v; hbRmw(a, mo); told("exchanges", a, o, v, RA); atomicDone(a, o, o != v, RA); return o; } \
RMW(S, R, add, o + v) RMW(S, R, sub, o - v) RMW(S, R, and, o & v) RMW(S, R, or, o | v) RMW(S, R, xor, o ^ v) RMW(S, R, nand, ~(o & v)) \
static bool cas##S(volatile R *a, R *e, R v, int mo, int fmo, void *pc) { ready<R>(a, 1, pc); R o = *a; bool ok = o == *e; if (ok) { *a = v; hbRmw(a, mo); } else { hbLoad(a, fmo); *e = o; } told(ok ? "compares and exchanges" : "fails to exchange", a, o, ok ? v : o, pc); atomicDone(a, o, ok && o != v, pc); return ok; } \
extern "C" int __tsan_atomic##S##_compare_exchange_strong(volatile R *a, R *e, R v, int mo, int fmo) { if (!managed()) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); In in; return cas##S(a, e, v, mo, fmo, RA); } \
extern "C" int __tsan_atomic##S##_compare_exchange_weak(volatile R *a, R *e, R v, int mo, int fmo) { if (!managed()) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); In in; return cas##S(a, e, v, mo, fmo, RA); } \
extern "C" R __tsan_atomic##S##_compare_exchange_val(volatile R *a, R e, R v, int mo, int fmo) { if (!managed()) { __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; } In in; cas##S(a, &e, v, mo, fmo, RA); return e; }
#define RMW(S, R, name, expr) extern "C" R __tsan_atomic##S##_fetch_##name(volatile R *a, R v, int mo) { if (!managed()) return __atomic_fetch_##name(a, v, __ATOMIC_SEQ_CST); In in; ready<R>(a, 1, RA); R o = *a; *a = (R)(expr); hbRmw(a, mo); told("updates", a, o, (R)(expr), RA); atomicDone(a, o, o != (R)(expr), RA); return o; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
extern "C" {
void __tsan_atomic_thread_fence(int mo) { if (!managed()) { __atomic_thread_fence(__ATOMIC_SEQ_CST); return; } In in; before("", RA); Thread &x = T[me]; if (mo != __ATOMIC_RELEASE && mo != __ATOMIC_RELAXED) x.vc.join(x.acq); if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) { x.rel = x.vc; x.vc.c[me]++; } }
void __tsan_atomic_signal_fence(int) {}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define PLAIN(n) void __tsan_read##n(void *a) { plain(a, n, 0, RA); } void __tsan_write##n(void *a) { plain(a, n, 1, RA); } void __tsan_read_write##n(void *a) { plain(a, n, 1, RA); } \
    void __tsan_volatile_read##n(void *a) { plain(a, n, 0, RA); } void __tsan_volatile_write##n(void *a) { plain(a, n, 1, RA); } \
    void __tsan_unaligned_read##n(void *a) { plain(a, n, 0, RA); } void __tsan_unaligned_write##n(void *a) { plain(a, n, 1, RA); } void __tsan_unaligned_volatile_read##n(void *a) { plain(a, n, 0, RA); } void __tsan_unaligned_volatile_write##n(void *a) { plain(a, n, 1, RA); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
void __tsan_read_range(void *a, size_t n) { plain(a, n, 0, RA); }
void __tsan_write_range(void *a, size_t n) { plain(a, n, 1, RA); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) plain(a, 8, 1, RA); }
void __tsan_vptr_read(void **a) { plain(a, 8, 0, RA); }

// Functions of the C library on memory, wrapped by the linker.
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t); size_t __real_strlen(const char *); char *__real_strcpy(char *, const char *); char *__real_strcat(char *, const char *); int __real_strcmp(const char *, const char *); char *__real_strdup(const char *);
void *__wrap_memcpy(void *d, const void *s, size_t n) { plain((void *)s, n, 0, RA); plain(d, n, 1, RA); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { plain((void *)s, n, 0, RA); plain(d, n, 1, RA); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { plain(d, n, 1, RA); return __real_memset(d, v, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { plain((void *)a, n, 0, RA); plain((void *)b, n, 0, RA); return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); plain((void *)s, n + 1, 0, RA); return n; }
char *__wrap_strcpy(char *d, const char *s) { size_t n = __real_strlen(s) + 1; plain((void *)s, n, 0, RA); plain(d, n, 1, RA); return __real_strcpy(d, s); }
char *__wrap_strcat(char *d, const char *s) { size_t n = __real_strlen(s) + 1, o = __real_strlen(d); plain((void *)s, n, 0, RA); plain(d, o, 0, RA); plain(d + o, n, 1, RA); return __real_strcat(d, s); }
int __wrap_strcmp(const char *a, const char *b) { size_t n = std::min(__real_strlen(a), __real_strlen(b)) + 1; plain((void *)a, n, 0, RA); plain((void *)b, n, 0, RA); return __real_strcmp(a, b); }

// Memory.  What a managed thread frees is not used again before the end of the execution.
static void fresh(void *p) {  // forgets what happened to the memory before (it may come from code of the harness)
    size_t n = malloc_usable_size(p); if (!inside) bytes += n; if (N < 2 || n > 65536) return;
    In in; for (uintptr_t k = (uintptr_t)p >> 3, e = ((uintptr_t)p + n) >> 3; k < e; k++) if (Cell *c = find(k)) c->n = 0;
}
void *malloc(size_t n) { void *p = __libc_malloc(n); if (me >= 0 && p) { fresh(p); if (!inside && n <= 4096) { In in; __real_memset(p, 0xa5, n); } } return p; }
void *calloc(size_t n, size_t k) { void *p = __libc_calloc(n, k); if (me >= 0 && p) fresh(p); return p; }
static void freed(void *p, void *pc) {
    In in; size_t n = malloc_usable_size(p); bytes -= n; if (n > 4096) n = 4096;
    if (N > 1) { if (live > 1) access((uintptr_t)p, n, 1, pc); for (size_t i = 0; i < n; i += 8) { Cell &c = cell(((uintptr_t)p + i) >> 3); for (int k = 0; k < c.n; k++) if (c.e[k].kind & 4) die("memory freed twice: by " + who(me) + " " + at(pc) + " and " + who(c.e[k].tid) + " " + at(c.e[k].pc)); c.n = 0; c.e[c.n++] = Entry{T[me].vc.c[me], (unsigned char)me, 0xff, 5, pc}; } }
    __real_memset(p, 0x5a, n); quarantine->push_back(p);
}
void free(void *p) { if (!p) return; if (managed()) freed(p, RA); else __libc_free(p); }
void *realloc(void *p, size_t n) { if (!managed()) return __libc_realloc(p, n); void *q = __libc_malloc(n); if (q) fresh(q); if (!p) return q; size_t o = malloc_usable_size(p); __real_memcpy(q, p, o < n ? o : n); freed(p, RA); return q; }
size_t __sanitizer_get_current_allocated_bytes() { return bytes; }

// Threads.
int pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    real(r_create, "pthread_create"); if (!managed()) return r_create(th, a, fn, arg);
    int d = PTHREAD_CREATE_JOINABLE; if (a) pthread_attr_getdetachstate(a, &d); { In in; before("", RA); } return create(th, fn, arg, d == PTHREAD_CREATE_DETACHED, false, RA);
}
int pthread_join(pthread_t h, void **ret) {
    real(r_join, "pthread_join"); if (!managed()) return r_join(h, ret);
    In in; int t = threadOf(h); if (t < 0 || T[t].joined || T[t].detached) die("joins a thread that is " + std::string(t < 0 ? "unknown" : T[t].joined ? "joined already" : "detached") + " " + at(RA));
    if (t == me) return EDEADLK;
    sched::joinOne(t); if (ret) *ret = T[t].ret; return 0;
}
int pthread_detach(pthread_t h) { static int (*r)(pthread_t); real(r, "pthread_detach"); if (!managed()) return r(h); In in; int t = threadOf(h); if (t < 0 || T[t].joined || T[t].detached) die("detaches a thread that is " + std::string(t < 0 ? "unknown" : T[t].joined ? "joined" : "detached already") + " " + at(RA)); T[t].detached = true; note("detaches " + who(t)); return 0; }
int sched_yield() { if (!managed()) return 0; In in; schedule(true, true); return 0; }
int nanosleep(const struct timespec *t, struct timespec *rem) { real(r_nanosleep, "nanosleep"); if (!managed()) return r_nanosleep(t, rem); sleepFor(nsOf(t), RA); return 0; }
int clock_nanosleep(clockid_t k, int flags, const struct timespec *t, struct timespec *rem) { static int (*r)(clockid_t, int, const struct timespec *, struct timespec *); real(r, "clock_nanosleep"); if (!managed()) return r(k, flags, t, rem); long n = nsOf(t); if (flags) n -= (k == CLOCK_REALTIME ? BASE_REAL : BASE_MONO) + vnow; sleepFor(n, RA); return 0; }
int usleep(useconds_t u) { if (!managed()) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; real(r_nanosleep, "nanosleep"); return r_nanosleep(&t, nullptr); } sleepFor(u * 1000L, RA); return 0; }
int clock_gettime(clockid_t k, struct timespec *t) { real(r_clock, "clock_gettime"); if (!managed()) return r_clock(k, t); vnow += clockStep; long n = (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE ? BASE_REAL : BASE_MONO) + vnow; t->tv_sec = n / 1000000000L; t->tv_nsec = n % 1000000000L; return 0; }
int gettimeofday(struct timeval *t, void *) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t *p) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }

// Mutexes.
int pthread_mutex_lock(pthread_mutex_t *m) { real(r_lock, "pthread_mutex_lock"); if (!managed()) return r_lock(m); In in; touchSync(m, RA); before("", RA); touchSync(m, RA); lockMutex(m, RA, isRecursive(m)); touchSync(m, RA); ticks++; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) {
    real(r_trylock, "pthread_mutex_trylock"); if (!managed()) return r_trylock(m); In in; touchSync(m, RA); before("", RA); touchSync(m, RA); Obj &o = obj(m);
    if (o.owner >= 0 && !(o.owner == me && isRecursive(m))) { note("cannot lock mutex " + called(m) + " " + at(RA)); schedule(true, true); return EBUSY; }
    lockMutex(m, RA, true); return 0;
}
static int timedLock(pthread_mutex_t *m, long deadline, void *pc) {
    In in; touchSync(m, pc); before("", pc); Thread &x = T[me]; bool rec = isRecursive(m);
    while (obj(m).owner >= 0 && !(obj(m).owner == me && rec)) { if (obj(m).owner == me) return EDEADLK; x.timed = true; x.timedOut = false; x.woken = false; x.deadline = deadline; block(MUTEX, m); x.timed = false; if (x.timedOut) return ETIMEDOUT; }
    lockMutex(m, pc, rec); ticks++; return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { static int (*r)(pthread_mutex_t *, const struct timespec *); real(r, "pthread_mutex_timedlock"); if (!managed()) return r(m, t); return timedLock(m, nsOf(t) - BASE_REAL, RA); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t k, const struct timespec *t) { static int (*r)(pthread_mutex_t *, clockid_t, const struct timespec *); real(r, "pthread_mutex_clocklock"); if (!managed()) return r(m, k, t); return timedLock(m, nsOf(t) - (k == CLOCK_REALTIME ? BASE_REAL : BASE_MONO), RA); }
int pthread_mutex_unlock(pthread_mutex_t *m) { real(r_unlock, "pthread_mutex_unlock"); if (!managed()) return r_unlock(m); In in; touchSync(m, RA); unlockMutex(m, RA); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { real(r_mdestroy, "pthread_mutex_destroy"); if (!managed()) return r_mdestroy(m); In in; if (obj(m).owner >= 0) die("a locked mutex is destroyed by " + who(me) + " " + at(RA)); return 0; }

// Condition variables.
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { static int (*r)(pthread_cond_t *, pthread_mutex_t *); real(r, "pthread_cond_wait"); if (!managed()) return r(c, m); return condWait(c, m, false, 0, RA); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { static int (*r)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *); real(r, "pthread_cond_timedwait"); if (!managed()) return r(c, m, t); return condWait(c, m, true, nsOf(t) - BASE_REAL, RA); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { static int (*r)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *); real(r, "pthread_cond_clockwait"); if (!managed()) return r(c, m, k, t); return condWait(c, m, true, nsOf(t) - (k == CLOCK_REALTIME ? BASE_REAL : BASE_MONO), RA); }
int pthread_cond_signal(pthread_cond_t *c) { static int (*r)(pthread_cond_t *); real(r, "pthread_cond_signal"); if (!managed()) return r(c); wake(c, false, RA); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { static int (*r)(pthread_cond_t *); real(r, "pthread_cond_broadcast"); if (!managed()) return r(c); wake(c, true, RA); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
    static int (*r)(pthread_cond_t *); real(r, "pthread_cond_destroy"); if (!managed()) return r(c);
    In in; for (int t = 0; t < N; t++) if (T[t].st == COND && T[t].on == c && !T[t].woken) die("a condition variable is destroyed while " + who(t) + " waits on it, by " + who(me) + " " + at(RA)); return 0;
}

// Read-write locks and semaphores.
static int rw(pthread_rwlock_t *l, bool write, bool wait, void *pc) {
    In in; touchSync(l, pc); before("", pc); for (;;) { Obj &o = obj(l); bool ok = write ? o.owner < 0 && o.count == 0 : o.owner < 0; if (ok) { if (write) o.owner = me; else o.count++; acquire(o.vc); note(std::string(write ? "write" : "read") + "-locks " + called(l)); ticks++; return 0; } if (!wait) { schedule(true, true); return EBUSY; } if (o.owner == me) die("deadlock: " + who(me) + " locks a lock it holds"); T[me].target = write; block(RWLOCK, l); }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { static int (*r)(pthread_rwlock_t *); real(r, "pthread_rwlock_rdlock"); return managed() ? rw(l, false, true, RA) : r(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { static int (*r)(pthread_rwlock_t *); real(r, "pthread_rwlock_wrlock"); return managed() ? rw(l, true, true, RA) : r(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { static int (*r)(pthread_rwlock_t *); real(r, "pthread_rwlock_tryrdlock"); return managed() ? rw(l, false, false, RA) : r(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { static int (*r)(pthread_rwlock_t *); real(r, "pthread_rwlock_trywrlock"); return managed() ? rw(l, true, false, RA) : r(l); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { static int (*r)(pthread_rwlock_t *); real(r, "pthread_rwlock_unlock"); if (!managed()) return r(l); In in; Obj &o = obj(l); if (o.owner == me) o.owner = -1; else if (o.count > 0) o.count--; else die("a lock is unlocked by a thread that does not hold it " + at(RA)); release(o.vc); ticks++; return 0; }
int sem_init(sem_t *s, int sh, unsigned v) { static int (*r)(sem_t *, int, unsigned); real(r, "sem_init"); if (!managed()) return r(s, sh, v); In in; obj(s).value = (int)v; return 0; }
static int semWait(sem_t *s, bool wait, bool timed, long deadline, void *pc) { In in; touchSync(s, pc); before("", pc); Thread &x = T[me]; while (obj(s).value <= 0) { if (!wait) { schedule(true, true); errno = EAGAIN; return -1; } x.timed = timed; x.timedOut = x.woken = false; x.deadline = deadline; block(SEM, s); x.timed = false; if (x.timedOut && obj(s).value <= 0) { errno = ETIMEDOUT; return -1; } } Obj &o = obj(s); o.value--; acquire(o.vc); note("takes semaphore " + called(s)); ticks++; return 0; }
int sem_wait(sem_t *s) { static int (*r)(sem_t *); real(r, "sem_wait"); return managed() ? semWait(s, true, false, 0, RA) : r(s); }
int sem_trywait(sem_t *s) { static int (*r)(sem_t *); real(r, "sem_trywait"); return managed() ? semWait(s, false, false, 0, RA) : r(s); }
int sem_timedwait(sem_t *s, const struct timespec *t) { static int (*r)(sem_t *, const struct timespec *); real(r, "sem_timedwait"); return managed() ? semWait(s, true, true, nsOf(t) - BASE_REAL, RA) : r(s, t); }
int sem_clockwait(sem_t *s, clockid_t k, const struct timespec *t) { static int (*r)(sem_t *, clockid_t, const struct timespec *); real(r, "sem_clockwait"); return managed() ? semWait(s, true, true, nsOf(t) - (k == CLOCK_REALTIME ? BASE_REAL : BASE_MONO), RA) : r(s, k, t); }
int sem_post(sem_t *s) { static int (*r)(sem_t *); real(r, "sem_post"); if (!managed()) return r(s); In in; touchSync(s, RA); before("", RA); Obj &o = obj(s); o.value++; writes++; release(o.vc); note("posts semaphore " + called(s)); return 0; }
int sem_destroy(sem_t *s) { static int (*r)(sem_t *); real(r, "sem_destroy"); return managed() ? 0 : r(s); }

// Futexes, which the C++ library's futures use directly.
long syscall(long n, ...) {
    va_list v; va_start(v, n); long a[6]; for (long &x : a) x = va_arg(v, long); va_end(v);
    if (!managed() || n != SYS_futex) { long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
    In in; void *f = (void *)a[0]; int op = (int)a[1] & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        before("", RA); if (*(volatile int *)f != (int)a[2]) { errno = EAGAIN; return -1; }
        Thread &x = T[me]; const struct timespec *t = (const struct timespec *)a[3];
        if (ctx->logging) note("waits on futex " + called(f) + " " + at(RA));
        x.mutex = nullptr; x.timed = t; x.deadline = !t ? 0 : op == FUTEX_WAIT ? vnow + nsOf(t) : nsOf(t) - ((int)a[1] & FUTEX_CLOCK_REALTIME ? BASE_REAL : BASE_MONO);
        x.woken = x.timedOut = false; block(COND, f); x.timed = false; ticks++;
        if (x.timedOut) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        before("", RA); int k = 0; for (int t = 0; t < N && k < (int)a[2]; t++) if (T[t].st == COND && T[t].on == f && !T[t].woken) { T[t].woken = true; writes++; k++; }
        return k;
    }
    die("harness error: futex operation " + std::to_string(op));
}

// One-time initialisation.
int pthread_once(pthread_once_t *o, void (*f)()) {
    static int (*r)(pthread_once_t *, void (*)()); real(r, "pthread_once"); if (!managed()) return r(o, f);
    { In in; while (*(volatile int *)o != 2 && obj(o).owner >= 0) block(ONCE, o); acquire(obj(o).vc); if (*(volatile int *)o == 2) return 0; obj(o).owner = me; }
    f();
    { In in; Obj &k = obj(o); k.owner = -1; *(volatile int *)o = 2; release(k.vc); } return 0;
}
void __tsan_atomic8_store(volatile uint8_t *a, uint8_t v, int mo);
int __cxa_guard_acquire(long long int *g) {
    volatile char *b = (volatile char *)g; if (!managed()) return *b ? 0 : 1;
    In in; while (!*b && obj(g).owner >= 0) block(ONCE, g); acquire(obj(g).vc); if (*b) return 0; obj(g).owner = me; return 1;
}
void __cxa_guard_release(long long int *g) { __tsan_atomic8_store((volatile uint8_t *)g, 1, __ATOMIC_RELEASE); if (!managed()) return; In in; Obj &k = obj(g); k.owner = -1; release(k.vc); }
void __cxa_guard_abort(long long int *g) { if (!managed()) return; In in; Obj &k = obj(g); k.owner = -1; }
}

namespace sched {
void readsMemory(const void *p, size_t n) { plain((void *)p, n, 0, RA); }
void writesMemory(void *p, size_t n) { plain(p, n, 1, RA); }
}
