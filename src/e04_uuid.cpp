// E04: UUID.  The clock, the random source and the state file of time UUIDs are replaced (--wrap) by ones the harness controls.
#include "jn.hpp"
#include "library/Java/Util/UUID/UUID.hpp"
#include <cstdarg>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
using namespace jav;
using namespace Java::Lang;
using namespace Java::Util;
typedef std::string B;
typedef unsigned long Q;
// The world the code under test sees.  Shared with child processes.
struct World { int64_t now; int polls, clockCalls, randomCalls; bool file, urandom, fixedRand; unsigned char bytes[64]; int at, pieces; int crashIn; char path[200]; };
static World *w; static pid_t owner;  // one per worker of the engine
static bool active = false; static int ufd = -1;
static void crashPoint() { if (active && w->crashIn > 0 && --w->crashIn == 0) _exit(7); }
extern "C" {
int __real_gettimeofday(struct timeval *, void *); int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_rand(); int __real_close(int); int __real_fflush(FILE *); int __real_ftruncate(int, off_t); int __real_flock(int, int); time_t __real_time(time_t *);
int __wrap_gettimeofday(struct timeval *t, void *z) { if (!active) return __real_gettimeofday(t, z); crashPoint(); w->clockCalls++; if (++w->polls > 5) { w->now++; w->polls = 4; } t->tv_sec = w->now / 1000000; t->tv_usec = w->now % 1000000; return 0; }
time_t __wrap_time(time_t *t) { if (!active) return __real_time(t); if (t) *t = w->now / 1000000; return w->now / 1000000; }
int __wrap_open(const char *p, int flags, ...) {
    va_list v; va_start(v, flags); int mode = va_arg(v, int); va_end(v); if (!active) return __real_open(p, flags, mode);
    B s = p; if (s == "/dev/urandom" || s == "/dev/random") { w->randomCalls++; if (!w->urandom) { errno = ENOENT; return -1; } w->at = 0; return ufd = __real_open("/dev/null", O_RDONLY); }
    if (!w->file) { errno = EACCES; return -1; } return __real_open(w->path, flags, mode);
}
ssize_t __wrap_read(int fd, void *p, size_t n) {
    if (!active || fd != ufd) return __real_read(fd, p, n); int k = (int)n;
    if (w->pieces) { int turn = w->pieces++ % 3; if (turn == 0) { errno = EINTR; return -1; } if (turn == 1 && k > 3) k = 3; if (turn == 2 && k > 5) k = 5; } for (int i = 0; i < k; i++) ((unsigned char *)p)[i] = w->bytes[(w->at++) % 64]; return k;
}
int __wrap_close(int fd) { if (active && fd == ufd) ufd = -1; return __real_close(fd); }
int __wrap_rand() { return active && w->fixedRand ? 0 : __real_rand(); }
int __wrap_fflush(FILE *f) { if (!active) return __real_fflush(f); crashPoint(); int r = __real_fflush(f); crashPoint(); return r; }
int __wrap_ftruncate(int fd, off_t n) { if (!active) return __real_ftruncate(fd, n); int r = __real_ftruncate(fd, n); crashPoint(); return r; }
int __wrap_flock(int fd, int op) { if (!active) return __real_flock(fd, op); crashPoint(); int r = __real_flock(fd, op); crashPoint(); return r; }
}
static void reset(const char *tmp = nullptr) { if (owner != getpid()) { owner = getpid(); w = (World *)mmap(nullptr, sizeof(World), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); } static int64_t epoch = 1500000000; epoch += 100000; memset(w, 0, sizeof *w); w->now = epoch * 1000000 + 999990; w->urandom = true; for (int i = 0; i < 64; i++) w->bytes[i] = (unsigned char)(i * 29 + 3); if (tmp) strncpy(w->path, tmp, sizeof w->path - 1); }
struct Using { Using() { w->polls = 0; active = true; } ~Using() { active = false; } };
struct Id { Q m, l; bool operator<(const Id &o) const { return m != o.m ? m < o.m : l < o.l; } };
static B text(Q m, Q l) { char t[40]; snprintf(t, 40, "%08x-%04x-%04x-%04x-%012llx", (unsigned)(m >> 32), (unsigned)(m >> 16 & 0xffff), (unsigned)(m & 0xffff), (unsigned)(l >> 48), (unsigned long long)(l & 0xffffffffffffULL)); return t; }
static Q ticks(Q m) { return m >> 32 | (m >> 16 & 0xffff) << 32 | (m & 0xfff) << 48; }
// 100 ns ticks since 1582-10-15
static Q ticksOf(int64_t usec) { return (Q)usec * 10 + 0x01B21DD213814000ULL; }
static void timed(mc::Ctx &c, const UUID &u, int64_t from, int64_t to) {
    Q m = u.getMostSignificantBits(), l = u.getLeastSignificantBits(); c.eq(u.version(), 1, "version()"); c.eq(u.variant(), 2, "variant()"); c.eq(S(u.toString()), text(m, l), "toString()"); c.check((u.node() >> 40 & 1) == 1, "a made up node address must be a multicast address");
    if (ticks(m) < ticksOf(from) || ticks(m) >= ticksOf(to + 1)) c.fail("the time of the id is " + std::to_string((long long)(ticks(m) - ticksOf(from))) + " ticks after its creation began, which took " + std::to_string((long long)(to - from)) + " microseconds"); c.eq((int)u.clockSequence(), (int)(l >> 48 & 0x3fff), "clockSequence()");
}
static const int64_t STEP[] = {0, 1, -1, 7, -12, 1000000, -1000000};
static void clocks(mc::Ctx &c, int depth, int steps) {
    reset(); std::set<Id> seen; uint64_t h = 1; int64_t at = 0;
    for (int i = 0; i < depth; i++) {
        int64_t d = i ? STEP[c.choose(steps)] : 0; int n = c.choose(2) ? 13 : 1; c.note([&] { return "clock " + std::to_string((long long)d) + " us, " + std::to_string(n) + " ids"; }); w->now += d; at += d; h = mc::mix(h, at * 2 + (n > 1));
        for (int k = 0; k < n; k++) { int64_t from = w->now; UUID u; { Using on; u = UUID::timeUUID(); } timed(c, u, from, w->now); if (!seen.insert({(Q)u.getMostSignificantBits(), (Q)u.getLeastSignificantBits()}).second) c.fail("the id " + S(u.toString()) + " was given out twice"); }
    }
    c.check(w->clockCalls > 0, "the clock of the harness was not used"); c.state(h);
}
SCENARIO(clock, "ids by time in one process without a state file: all histories of one or 13 ids and clock steps of 0, 1, -1, 7, -12 us, 1, -1 s", 1, 4, 5) { clocks(c, depth, 7); }
SCENARIO(clockLong, "the same, longer, with clock steps of 0, 1, -1, 7 us", 5, 6, 7) { clocks(c, depth, 4); }
// Two processes with the same node address and one state file; a process may be killed at any of its calls.
struct Proc { pid_t pid; int in, out; };
struct Answer { Q m, l; int64_t to; };
static Proc start() { int a[2], b[2]; if (pipe(a) || pipe(b)) abort(); pid_t p = fork(); if (!p) { close(a[1]); close(b[0]); char k; while (__real_read(a[0], &k, 1) == 1) { UUID u; { Using on; u = UUID::timeUUID(); } Answer r{(Q)u.getMostSignificantBits(), (Q)u.getLeastSignificantBits(), w->now}; if (write(b[1], &r, sizeof r) != sizeof r) break; } _exit(0); } close(a[0]); close(b[1]); return {p, a[1], b[0]}; }
static void stop(Proc &p) { kill(p.pid, SIGKILL); close(p.in); close(p.out); int st; waitpid(p.pid, &st, 0); }
static bool ask(Proc &p, Answer &r) { char k = 1; if (write(p.in, &k, 1) != 1) return false; return __real_read(p.out, &r, sizeof r) == sizeof r; }
SCENARIO_NOLEAK(processes, "ids by time of two processes of one machine with a state file: all histories of which process, clock steps of 0, 1, -1, -12 us, and a kill at any of the first 16 calls of one of them", 1, 3, 4) {
    static B path; static pid_t mine; if (mine != getpid()) { mine = getpid(); path = [] { char t[] = "uuid-state-XXXXXX"; int fd = mkstemp(t); if (fd >= 0) close(fd); char cwd[120]; return B(getcwd(cwd, sizeof cwd)) + "/" + t; }(); } unlink(path.c_str()); reset(path.c_str()); w->file = true; w->fixedRand = true; signal(SIGPIPE, SIG_IGN);
    static const int64_t D[] = {0, 1, -1, -12}; int victim = c.choose(depth + 1), crash = victim < depth ? 1 + c.choose(16) : 0; std::set<Id> seen; Proc p[2] = {start(), start()}; uint64_t h = victim * 16 + crash; struct Stop { Proc *p; ~Stop() { stop(p[0]); stop(p[1]); } } ender{p}; int64_t at = 0; bool died = false;
    for (int i = 0; i < depth; i++) {
        int who = i ? c.choose(2) : 0; int64_t d = i ? D[c.choose(4)] : 0; w->now += d; at += d; h = mc::mix(h, at * 2 + who); c.note([&] { return "clock " + std::to_string((long long)d) + " us, process " + std::to_string(who) + (i == victim ? " makes an id, killed at call " + std::to_string(crash) : B(" makes an id")); });
        int64_t from = w->now; Answer r; w->polls = 0; w->crashIn = i == victim ? crash : 0; bool ok = ask(p[who], r); w->crashIn = 0;
        if (!ok) { c.check(i == victim, "a process died"); died = true; stop(p[who]); p[who] = start(); c.note([] { return "... killed; a new process takes its place"; }); continue; }
        timed(c, UUID((long)r.m, (long)r.l), from, r.to); if (!seen.insert({r.m, r.l}).second) c.fail("the id " + text(r.m, r.l) + " was given out twice");
    }
    c.state(h); c.outcome(died);
}
SCENARIO(random, "random ids: every byte of the source in its place, whether the source gives all at once or in pieces", 1, 1, 1) {
    reset(); int pos = c.choose(16), v = c.choose(256); bool pieces = c.flip(); w->fixedRand = true; w->bytes[pos] = (unsigned char)v; w->pieces = pieces; c.note([&] { return "byte " + std::to_string(pos) + " is " + std::to_string(v); }); c.state(mc::mix(mc::mix(pos, v), pieces)); Using on; UUID u = UUID::randomUUID(); c.check(w->randomCalls > 0, "the random source of the harness was not used");
    Q m = 0, l = 0; for (int i = 0; i < 8; i++) { m = m << 8 | w->bytes[i]; l = l << 8 | w->bytes[8 + i]; } m = (m & ~0xf000ULL) | 0x4000; l = (l & ~(3ULL << 62)) | 2ULL << 62; c.eq(S(u.toString()), text(m, l), "randomUUID()"); c.eq(u.version(), 4, "version()"); c.eq(u.variant(), 2, "variant()");
}
SCENARIO(noSource, "without a random source ids still have version 4 and variant 2", 1, 1, 1) { reset(); w->urandom = false; c.choose(50); Using on; UUID u = UUID::randomUUID(); c.eq(u.version(), 4, "version()"); c.eq(u.variant(), 2, "variant()"); c.eq((int)u.toString().length(), 36, "length of the text"); }
static const Q V[] = {0, 1, 2, 9, 0xf, 0x10, 0xff, 0x1000, 0x4000, 0xf000, 0xffff, 0x10000, 0x1ff8000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x8000000000, 0xffffffffffff, 0x1000000000000, 0x3fff000000000000, 0x2000000000000000, 0x4000000000000000, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, 0xbfffffffffffffff, 0xc000000000000000, 0xdfffffffffffffff, 0xe000000000000000, 0xffffffffffffffff, 0x0123456789abcdef, 0xfedcba9876543210, 0x3840000800f011bd, 0xb23e10b96e4ef00d, 0x00000000000011bd, 0xffffffffffff1fff};
SCENARIO(fields, "fields, texts and comparison of ids of all pairs of 37 boundary words and single bits", 1, 1, 2) {
    static const int K = sizeof V / sizeof *V; int n = K + 64; auto val = [&](int i) { return i < K ? V[i] : 1ULL << (i - K); }; Q m = val(c.choose(n)), l = val(c.choose(n)); c.note([&] { return text(m, l); }); c.state(mc::mix(m, l)); int64_t t0 = __real_time(nullptr); UUID u((long)m, (long)l);
    c.eq((Q)u.getMostSignificantBits(), m, "getMostSignificantBits()"); c.eq((Q)u.getLeastSignificantBits(), l, "getLeastSignificantBits()"); B t = text(m, l); c.eq(S(u.toString()), t, "toString()"); int ver = (int)(m >> 12 & 15); c.eq(u.version(), ver, "version()"); int vari = l >> 63 == 0 ? 0 : l >> 62 == 2 ? 2 : (int)(l >> 61); c.eq(u.variant(), vari, "variant()");
    c.eq(u.clockSequence(), ver == 1 ? (int)(l >> 48 & 0x3fff) : -1, "clockSequence()"); c.eq((Q)u.node(), (Q)(l & 0xffffffffffff), "node()"); c.eq(u.hashCode(), (int)(unsigned)((m ^ l) >> 32 ^ (m ^ l)), "hashCode()"); c.check(u.getTimestamp() >= t0 && u.getTimestamp() <= t0 + 100, "getTimestamp() is not the time of creation");
    for (int up = 0; up < 2; up++) { B s = t; if (up) for (char &k : s) k = (char)toupper(k); UUID v = UUID::fromString(String(s)); c.check(v.equals(u) && u.equals(v), "fromString(toString())"); c.eq(S(v.toString()), t, "toString() of fromString()"); }
    for (int i = 0; i < K; i++) { UUID v((long)V[i], (long)l), x((long)m, (long)V[i]); c.eq(u.equals(v), m == V[i], "equals()"); c.eq(u.equals(x), l == V[i], "equals()"); int a = (int64_t)m < (int64_t)V[i] ? -1 : m != V[i], b = (int64_t)l < (int64_t)V[i] ? -1 : l != V[i]; c.eq(u.compareTo(v), a, "compareTo()"); c.eq(v.compareTo(u), -a, "compareTo()"); c.eq(u.compareTo(x), b, "compareTo()"); c.eq(x.compareTo(u), -b, "compareTo()"); }
}
SCENARIO(nothing, "an id made from nothing is zero", 1, 1, 1) { c.state(1); int64_t t0 = __real_time(nullptr); UUID u; c.eq(S(u.toString()), text(0, 0), "toString()"); c.check(u.getTimestamp() >= t0 && u.getTimestamp() <= t0 + 100, "getTimestamp() is not the time of creation"); c.eq(u.variant(), 0, "variant()"); c.eq(u.version(), 0, "version()"); }
int main(int argc, char **argv) { return mc::main(argc, argv); }
