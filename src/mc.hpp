// Bounded-exhaustive explorer for sequential code ("stateless model checking" over choice points).
//
// A scenario is an ordinary function of a Ctx.  Every source of variety (which operation comes next,
// which argument it gets, which initial state it starts from) goes through Ctx::choose(n).  The engine
// enumerates *every* sequence of choices, depth bound by depth bound, by re-executing the scenario from
// the start along each path: the real objects are rebuilt for every execution, so no copy constructor of
// the code under test is trusted by the search.  Work is divided over forked workers; a worker that
// crashes (AddressSanitizer, signal), hangs or reports a mismatch leaves its path in shared memory.  The
// parent then replays that path twice in fresh processes before it is reported.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <sanitizer/lsan_interface.h>

namespace mc {

struct Skip {};
struct Violation { std::string what; };

static const int MAXPATH = 12000;
static const int MAXWORK = 16;
static const uint32_t NCLAIM = 1u << 20;
static const uint64_t NSTATE = 1ull << 24;   // slots in each hash set

struct Slot {
    volatile int status;           // 0 running, 1 done, 2 violation, 3 engine error
    volatile int depth;
    volatile int len;
    volatile int scenario;
    volatile uint64_t progress;
    int choice[MAXPATH];
    int width[MAXPATH];
    char msg[4096];
};

struct Shared {
    std::atomic<uint64_t> executions, transitions, states, outcomes, maxlen, leakchecked;
    std::atomic<uint64_t> known[32];
    std::atomic<int> stop, truncated, saturated;
    Slot slot[MAXWORK];
    std::atomic<uint64_t> claimTab[NCLAIM];
    std::atomic<uint64_t> stateTab[NSTATE];
    std::atomic<uint64_t> outTab[NSTATE];
};

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    return h;
}
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h ^ (h >> 29);
}
inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull) {
    return mix(hashBytes(s.data(), s.size(), h), s.size());
}

inline std::string show(const std::string &s) {
    std::string r = "\"";
    size_t n = s.size() > 160 ? 160 : s.size();
    for (size_t i = 0; i < n; i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
        else r += c;
    }
    if (n < s.size()) r += "...(" + std::to_string(s.size()) + ")";
    return r + "\"";
}
inline std::string show(const char *s) { return s ? show(std::string(s)) : "null"; }
inline std::string show(bool b) { return b ? "true" : "false"; }
inline std::string show(char c) { return show(std::string(1, c)); }
inline std::string show(int v) { return std::to_string(v); }
inline std::string show(unsigned v) { return std::to_string(v); }
inline std::string show(long v) { return std::to_string(v); }
inline std::string show(unsigned long v) { return std::to_string(v); }
inline std::string show(long long v) { return std::to_string(v); }
inline std::string show(unsigned char v) { return std::to_string((int)v); }
inline std::string show(signed char v) { return std::to_string((int)v); }
inline std::string show(unsigned short v) { return std::to_string((int)v); }
inline std::string show(short v) { return std::to_string(v); }
inline std::string show(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return b; }
inline std::string show(float v) { char b[64]; snprintf(b, 64, "%.9g", v); return b; }
template<class T> std::string show(const std::vector<T> &v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) r += ", "; r += show((T)v[i]); }
    return r + "]";
}

enum Mode { EXPLORE, REPLAY };

class Ctx {
public:
    Shared *sh = nullptr; Slot *slot = nullptr;
    Mode mode = EXPLORE;
    int pos = 0, worker = 0, depth = 0;
    bool thorough = false;
    std::vector<std::string> log;      // only in replay mode
    bool logging = false;
    uint64_t trans = 0;
    int logfd = -1;
    // Ends the execution as a violation from a place an exception cannot leave (another thread).
    [[noreturn]] void die(const std::string &what) {
        snprintf(slot->msg, sizeof slot->msg, "%s", what.c_str());
        if (mode == REPLAY) { std::string o; for (auto &l : log) o += l + "\n"; if (logfd >= 0 && write(logfd, o.data(), o.size()) < 0) {} _exit(1); }
        slot->status = 2; sh->stop = 1; _exit(0);
    }

    // One choice among n alternatives, 0 .. n-1.
    int choose(int n) {
        if (n <= 0) throw Violation{"harness error: choose(" + std::to_string(n) + ")"};
        trans++;
        if (n == 1) return 0;
        if (pos < slot->len) {
            if (slot->width[pos] != n) {
                snprintf(slot->msg, sizeof slot->msg, "nondeterministic replay: choice %d had width %d, now %d", pos, slot->width[pos], n);
                if (getenv("MC_DEBUG")) { FILE *stderr = fopen(getenv("MC_DEBUG"), "a"); for (int i = 0; i <= pos; i++) fprintf(stderr, "%d/%d ", slot->choice[i], slot->width[i]); fprintf(stderr, "\n"); for (auto &l : log) fprintf(stderr, "%s\n", l.c_str()); fclose(stderr); }
                slot->status = 3; _exit(3);
            }
            return slot->choice[pos++];
        }
        if (mode == REPLAY) throw Violation{"replay file too short: it does not belong to this build of the harness"};
        if (slot->len >= MAXPATH) throw Violation{"harness error: path too long"};
        slot->choice[pos] = 0; slot->width[pos] = n; slot->len = pos + 1;
        pos++;
        return 0;
    }
    template<class T> const T &pick(const std::vector<T> &v) { return v[choose((int)v.size())]; }
    template<class T, size_t N> const T &pick(const T (&v)[N]) { return v[choose((int)N)]; }
    int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
    bool flip() { return choose(2) == 1; }

    // Trace text, evaluated only when a path is replayed.
    template<class F> void note(F f) { if (logging) log.push_back(f()); }

    [[noreturn]] void fail(const std::string &what) { throw Violation{what}; }
    template<class A, class B> void eq(const A &got, const B &want, const char *what) {
        if (!(got == want)) throw Violation{std::string(what) + ": got " + show(got) + ", the reference says " + show(want)};
    }
    void check(bool c, const char *what) { if (!c) throw Violation{what}; }
    void check(bool c, const std::string &what) { if (!c) throw Violation{what}; }
    template<class F> void checkf(bool c, F f) { if (!c) throw Violation{f()}; }

    // Record a state reached / an outcome observed.  Returns true when it is new.
    bool claim(uint64_t h) {
        h = mix(h, 0x77); if (h == 0) h = 1;
        for (uint64_t i = h & (NCLAIM - 1);; i = (i + 1) & (NCLAIM - 1)) {
            uint64_t cur = 0;
            if (sh->claimTab[i].compare_exchange_strong(cur, h)) return true;
            if (cur == h) return false;
        }
    }
    bool state(uint64_t h) { return insert(sh->stateTab, h, sh->states); }
    bool outcome(uint64_t h) { return insert(sh->outTab, h, sh->outcomes); }
    // A listed known finding was reproduced (index into the known-findings table of this harness).
    void known(int k) { sh->known[k]++; }
private:
    bool insert(std::atomic<uint64_t> *tab, uint64_t h, std::atomic<uint64_t> &count) {
        if (mode == REPLAY) return true;
        h = mix(h, 0x51ed27); if (h == 0) h = 1;
        uint64_t i = h & (NSTATE - 1);
        for (int probe = 0; probe < 64; probe++, i = (i + 1) & (NSTATE - 1)) {
            uint64_t cur = tab[i].load(std::memory_order_relaxed);
            if (cur == h) return false;
            if (cur == 0) {
                if (tab[i].compare_exchange_strong(cur, h)) { count++; return true; }
                if (cur == h) return false;
            }
        }
        sh->saturated = 1;
        return true;
    }
};

struct Scenario {
    std::string name;
    std::string doc;                       // the alphabet, in words
    int lo, quick, deep;                   // depth bounds: first, last (quick), last (thorough)
    std::function<void(Ctx &, int)> body;  // the int is the depth bound
    bool leak;                             // also check that an execution frees what it allocates
};

inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
inline std::vector<std::string> &knownTable() { static std::vector<std::string> v; return v; }  // text per known finding
struct Reg {
    Reg(const char *n, const char *d, int lo, int q, int t, std::function<void(Ctx &, int)> f, bool leak = false) {
        scenarios().push_back(Scenario{n, d, lo, q, t, f, leak});
    }
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define SCENARIO(name, doc, lo, quick, deep) \
    static void MC_CAT(scn_, name)(mc::Ctx &c, int depth); \
    static mc::Reg MC_CAT(reg_, name)(#name, doc, lo, quick, deep, MC_CAT(scn_, name)); \
    static void MC_CAT(scn_, name)(mc::Ctx &c, int depth)
#define SCENARIO_NOLEAK(name, doc, lo, quick, deep) \
    static void MC_CAT(scn_, name)(mc::Ctx &c, int depth); \
    static mc::Reg MC_CAT(reg_, name)(#name, doc, lo, quick, deep, MC_CAT(scn_, name), true); \
    static void MC_CAT(scn_, name)(mc::Ctx &c, int depth)

inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// Executes the body along the path in the slot; fills msg and returns false on a violation.
inline bool execute(const Scenario &s, Ctx &c, int depth) {
    c.pos = 0;
    try { s.body(c, depth); }
    catch (Skip &) {}
    catch (Violation &v) { snprintf(c.slot->msg, sizeof c.slot->msg, "%s", v.what.c_str()); return false; }
    catch (std::exception &e) {
        snprintf(c.slot->msg, sizeof c.slot->msg, "unexpected C++ exception: %s (%s)", typeid(e).name(), e.what()); return false;
    }
    catch (...) { snprintf(c.slot->msg, sizeof c.slot->msg, "unexpected exception of a type that is not std::exception"); return false; }
    return true;
}

inline bool backtrack(Slot *sl, int keep) {
    while (sl->len > keep && sl->choice[sl->len - 1] + 1 >= sl->width[sl->len - 1]) sl->len = sl->len - 1;
    if (sl->len <= keep) return false;
    sl->choice[sl->len - 1]++;
    return true;
}

// The length of the prefix by which work is divided: up to the first choice at which the product of widths
// reaches 1000.  The first worker to run into a prefix claims everything below it.
inline int splitLen(const Slot *sl, int len) {
    uint64_t p = 1;
    for (int i = 0; i < len; i++) { p *= (p < (1u << 20)) ? sl->width[i] : 1; if (p >= 1000) return i + 1; }
    return len;
}

inline void worker(const Scenario &s, Shared *sh, int w, int depth, bool thorough, double deadline) {
    Ctx c; c.sh = sh; c.slot = &sh->slot[w]; c.worker = w; c.depth = depth; c.thorough = thorough;
    Slot *sl = c.slot;
    sl->len = 0;
    bool mine = false, first = true;
    int prefix[MAXPATH], plen = 0;
    uint64_t execs = 0, lastTrans = 0, iter = 0; int maxlen = 0;
    auto flush = [&] {
        sh->executions += execs; execs = 0;
        sh->transitions += c.trans - lastTrans; lastTrans = c.trans;
        uint64_t m = sh->maxlen; while ((uint64_t)maxlen > m && !sh->maxlen.compare_exchange_weak(m, maxlen)) {}
    };
    for (;;) {
        uint64_t t0 = c.trans;
        bool leakThis = s.leak && mine;
        size_t before = leakThis ? __sanitizer_get_current_allocated_bytes() : 0;
        bool ok = execute(s, c, depth);
        sl->progress = sl->progress + 1;
        int sp = splitLen(sl, sl->len);
        if (first || sp != plen || memcmp(prefix, sl->choice, sp * sizeof(int)) != 0) {
            first = false; plen = sp; memcpy(prefix, sl->choice, sp * sizeof(int));
            mine = c.claim(hashBytes(prefix, sp * sizeof(int), 77 + sp));
        }
        if (!ok) {                            // found by whoever gets there first
            flush(); sl->status = 2; sh->stop = 1; _exit(0);
        }
        if (leakThis && mine) {
            size_t after = __sanitizer_get_current_allocated_bytes();
            if (after > before) {             // may be a cache or a lazily built static: only repeated growth counts
                size_t a = __sanitizer_get_current_allocated_bytes();
                execute(s, c, depth); size_t b = __sanitizer_get_current_allocated_bytes();
                execute(s, c, depth); size_t d = __sanitizer_get_current_allocated_bytes();
                if (b > a && d > b) {
                    snprintf(sl->msg, sizeof sl->msg, "memory leak: the same history allocates %zu more bytes each time it runs", (size_t)(d - b));
                    flush(); sl->status = 2; sh->stop = 1; _exit(0);
                }
            }
            sh->leakchecked++;
        }
        if (mine) { execs++; if (sl->len > maxlen) maxlen = sl->len; }
        else { c.trans = t0; sl->len = sp; }  // the rest of this prefix belongs to another worker
        if (!backtrack(sl, 0)) break;
        if ((++iter & 127) == 0) {
            flush();
            if (sh->stop) _exit(0);
            if (now() > deadline) { sh->truncated = 1; _exit(0); }
        }
    }
    flush();
    sl->status = 1;
    _exit(0);
}

struct Found { bool any = false; std::string scenario, msg; int depth = 0; std::vector<int> choice, width; bool crash = false, hang = false, sequence = false; };

inline std::string readTail(const std::string &path, size_t n = 6000) {
    FILE *f = fopen(path.c_str(), "r"); if (!f) return "";
    std::string s; char b[4096]; size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0) { s.append(b, k); if (s.size() > 200000) break; }
    fclose(f);
    if (s.size() > n) s = s.substr(0, n);
    return s;
}

// Runs one path in a child.  Returns: 0 clean, 1 violation, 2 crash, 3 hang, 4 engine error.
inline int replayOnce(const Scenario &s, Shared *sh, const Found &f, bool thorough, std::string &msg, std::vector<std::string> *log, double limit, const std::string &errfile) {
    int fd[2]; if (pipe(fd)) { perror("pipe"); exit(3); }
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (e >= 0) { dup2(e, 2); }
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
        Slot *sl = &sh->slot[0];
        Ctx c; c.sh = sh; c.slot = sl; c.mode = REPLAY; c.logging = true; c.depth = f.depth; c.thorough = thorough;
        sl->len = (int)f.choice.size(); sl->status = 0; sl->msg[0] = 0;
        for (int i = 0; i < sl->len; i++) { sl->choice[i] = f.choice[i]; sl->width[i] = f.width[i]; }
        // Log lines are streamed, so that they survive a crash.
        struct Flusher { int fd; Ctx *c; size_t done; } fl = {fd[1], &c, 0};
        (void)fl;
        c.log.reserve(64); c.logfd = fd[1];
        bool leak = f.msg.compare(0, 11, "memory leak") == 0;
        bool ok;
        if (leak) {
            execute(s, c, f.depth);
            size_t a = __sanitizer_get_current_allocated_bytes();
            c.logging = false;
            execute(s, c, f.depth); size_t b = __sanitizer_get_current_allocated_bytes();
            execute(s, c, f.depth); size_t d = __sanitizer_get_current_allocated_bytes();
            ok = !(b > a && d > b);
            if (!ok) snprintf(sl->msg, sizeof sl->msg, "memory leak: the same history allocates %zu more bytes each time it runs", (size_t)(d - b));
        } else ok = execute(s, c, f.depth);
        std::string out;
        for (auto &l : c.log) out += l + "\n";
        if (write(fd[1], out.data(), out.size()) < 0) {}
        _exit(ok ? 0 : 1);
    }
    close(fd[1]);
    fcntl(fd[0], F_SETFL, O_NONBLOCK);
    std::string out; double t0 = now(); int st = 0; bool hang = false;
    for (;;) {
        char b[4096]; ssize_t k;
        while ((k = read(fd[0], b, sizeof b)) > 0) out.append(b, k);
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break; }
        usleep(2000);
    }
    { char b[4096]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) out.append(b, k); }
    close(fd[0]);
    if (log) { log->clear(); std::istringstream is(out); std::string l; while (std::getline(is, l)) log->push_back(l); }
    if (hang) { msg = "the operation does not terminate"; return 3; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && sh->slot[0].msg[0]) { msg = sh->slot[0].msg; return 1; }
    if (sh->slot[0].status == 3) { msg = sh->slot[0].msg; return 4; }
    msg = WIFSIGNALED(st) ? "crash: signal " + std::to_string(WTERMSIG(st)) : "crash: exit status " + std::to_string(WEXITSTATUS(st));
    std::string t = readTail(errfile); size_t p0 = t.find("ERROR: AddressSanitizer");
    if (p0 == std::string::npos) p0 = t.find("runtime error");
    if (p0 != std::string::npos) msg += ": " + t.substr(p0, t.find('\n', p0) - p0);
    else { size_t q = t.find("terminate called"); if (q != std::string::npos) msg += ": " + t.substr(q, 200); }
    return 2;
}

inline std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

inline std::string pathText(const std::vector<int> &c, const std::vector<int> &w) {
    std::string s; for (size_t i = 0; i < c.size(); i++) { if (i) s += " "; s += std::to_string(c[i]) + "/" + std::to_string(w[i]); }
    return s;
}

inline Shared *makeShared() {
    void *m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared *)m;
}

// One worker explores the scenario from its first path, in a fresh process: the deterministic way to reach a
// violation that depends on earlier executions (static state, reused memory).  0 none, 1 violation.
inline int sequenceRun(const Scenario &s, int depth, bool thorough, double limit, std::string &msg, std::vector<int> &ch, std::vector<int> &wd) {
    Shared *sh = makeShared();
    pid_t p = fork();
    if (p == 0) {
        int e = open("/dev/null", O_WRONLY); dup2(e, 1); dup2(e, 2);
        worker(s, sh, 0, depth, thorough, now() + limit);
    }
    int st = 0; uint64_t last = 0; double since = now(); bool hang = false;
    for (;;) {
        if (waitpid(p, &st, WNOHANG) == p) break;
        if (sh->slot[0].progress != last) { last = sh->slot[0].progress; since = now(); }
        else if (now() - since > 20) { kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break; }
        usleep(2000);
    }
    Slot &sl = sh->slot[0]; int r = 0;
    bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (hang || !clean || sl.status == 2) {
        r = 1;
        msg = hang ? "the operation does not terminate" : sl.status == 2 ? std::string(sl.msg) : sl.status == 3 ? std::string("behaviour differs between executions of one history: ") + sl.msg : std::string("crash");
        ch.assign(sl.choice, sl.choice + sl.len); wd.assign(sl.width, sl.width + sl.len);
    }
    munmap(sh, sizeof(Shared));
    return r;
}

inline int main(int argc, char **argv) {
    std::string tier = "quick", out, replay, only, tmp = "/tmp";
    int workers = 8; double budget = 1e9;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--list") return 0;   // the program starts
        if (a == "--tier") tier = next(); else if (a == "--out") out = next(); else if (a == "--replay") replay = next();
        else if (a == "--workers") workers = atoi(next().c_str()); else if (a == "--budget") budget = atof(next().c_str());
        else if (a == "--only") only = next(); else if (a == "--tmp") tmp = next();
    }
    workers = std::max(1, std::min(workers, MAXWORK));
    bool thorough = tier == "thorough";
    std::string errfile = tmp + "/mc_stderr." + std::to_string(getpid());
    Shared *sh = makeShared();

    if (!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror(replay.c_str()); return 3; }
        Found fd; static char line[65536]; std::string scen;
        while (fgets(line, sizeof line, f)) {
            std::string l = line; while (!l.empty() && l.back() == '\n') l.pop_back();
            if (l.compare(0, 10, "scenario: ") == 0) scen = l.substr(10);
            else if (l.compare(0, 7, "depth: ") == 0) fd.depth = atoi(l.c_str() + 7);
            else if (l.compare(0, 6, "tier: ") == 0) thorough = l.substr(6) == "thorough";
            else if (l == "mode: sequence") fd.sequence = true;
            else if (l.compare(0, 6, "what: ") == 0) fd.msg = l.substr(6);
            else if (l.compare(0, 6, "path: ") == 0) {
                std::istringstream is(l.substr(6)); std::string t;
                while (is >> t) { fd.choice.push_back(atoi(t.c_str())); fd.width.push_back(atoi(t.c_str() + t.find('/') + 1)); }
            }
        }
        fclose(f);
        for (auto &s : scenarios()) if (s.name == scen) {
            std::string msg; std::vector<std::string> log;
            if (fd.sequence) {
                int r = sequenceRun(s, fd.depth, thorough, 600, msg, fd.choice, fd.width);
                printf(r ? "replay: %s\n" : "replay: no violation\n", msg.c_str());
                return r;
            }
            int r = replayOnce(s, sh, fd, thorough, msg, &log, 120, errfile);
            for (auto &l : log) printf("  %s\n", l.c_str());
            std::string t = r == 2 ? readTail(errfile, 3000) : "";
            if (!t.empty()) printf("%s\n", t.c_str());
            unlink(errfile.c_str());
            printf(r == 0 ? "replay: no violation\n" : "replay: %s\n", msg.c_str());
            return r == 0 ? 0 : 1;
        }
        fprintf(stderr, "no scenario %s\n", scen.c_str()); return 3;
    }

    double start = now();
    Found found; std::vector<std::string> flog;
    std::string js = "{\"scenarios\": [";
    bool first = true, complete = true; int rc = 0;
    uint64_t totE = 0, totT = 0, totS = 0, totO = 0, totL = 0; std::vector<uint64_t> knownCount(32, 0);
    std::vector<std::string> samples;
    for (size_t si = 0; si < scenarios().size() && !found.any && rc == 0; si++) {
        Scenario &s = scenarios()[si];
        if (!only.empty() && s.name != only) continue;
        int hi = thorough ? s.deep : s.quick;
        for (int depth = s.lo; depth <= hi && !found.any && rc == 0; depth++) {
            double t0 = now();
            munmap(sh, sizeof(Shared)); sh = makeShared();
            std::vector<pid_t> pids(workers);
            double deadline = start + budget;
            fflush(stdout); fflush(stderr);
            for (int w = 0; w < workers; w++) {
                pid_t p = fork();
                if (p == 0) {
                    int e = open("/dev/null", O_WRONLY); dup2(e, 1); dup2(e, 2);
                    worker(s, sh, w, depth, thorough, deadline);
                }
                pids[w] = p;
            }
            std::vector<uint64_t> last(workers, 0); std::vector<double> since(workers, now()); int live = workers;
            std::vector<bool> dead(workers, false);
            int crashW = -1; bool hang = false;
            while (live > 0) {
                for (int w = 0; w < workers; w++) if (!dead[w]) {
                    int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
                    if (r == pids[w]) {
                        dead[w] = true; live--;
                        bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
                        if (!clean) {
                            if (sh->slot[w].status == 3) { fprintf(stderr, "ENGINE: %s\n", sh->slot[w].msg); rc = 3; sh->stop = 1; }
                            else if (crashW < 0) { crashW = w; sh->stop = 1; }
                        }
                    } else {
                        if (sh->slot[w].progress != last[w]) { last[w] = sh->slot[w].progress; since[w] = now(); }
                        else if (now() - since[w] > 20) {
                            kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); dead[w] = true; live--;
                            if (crashW < 0) { crashW = w; hang = true; } sh->stop = 1;
                        }
                    }
                }
                usleep(2000);
            }
            int vw = -1;
            for (int w = 0; w < workers && vw < 0; w++) if (sh->slot[w].status == 2) vw = w;
            if (vw < 0) vw = crashW;
            uint64_t E = sh->executions, T = sh->transitions, S = sh->states, O = sh->outcomes, L = sh->leakchecked;
            totE += E; totT += T; totS += S; totO += O; totL += L;
            for (int k = 0; k < 32; k++) knownCount[k] += sh->known[k];
            bool trunc = sh->truncated || sh->saturated; if (sh->truncated) complete = false;
            char buf[400];
            snprintf(buf, sizeof buf, "%s\n  {\"name\": \"%s\", \"depth\": %d, \"executions\": %llu, \"transitions\": %llu, \"states\": %llu, \"outcomes\": %llu, \"longest_path\": %llu, \"leak_checked\": %llu, \"complete\": %s, \"wall_s\": %.2f}",
                     first ? "" : ",", s.name.c_str(), depth, (unsigned long long)E, (unsigned long long)T, (unsigned long long)S, (unsigned long long)O,
                     (unsigned long long)sh->maxlen, (unsigned long long)L, (trunc || vw >= 0) ? "false" : "true", now() - t0);
            js += buf; first = false;
            fprintf(stderr, "[%s] depth %d: executions=%llu transitions=%llu states=%llu outcomes=%llu%s %.1fs\n", s.name.c_str(), depth,
                    (unsigned long long)E, (unsigned long long)T, (unsigned long long)S, (unsigned long long)O, trunc ? " (TRUNCATED)" : "", now() - t0);
            if (vw >= 0 && rc == 0) {
                found.any = true; found.scenario = s.name; found.depth = depth; found.crash = vw == crashW && sh->slot[vw].status != 2; found.hang = hang;
                found.msg = sh->slot[vw].msg;
                // A freshly extended path is recorded in the slot as it is built, so it is complete even after a crash.
                found.choice.assign(sh->slot[vw].choice, sh->slot[vw].choice + sh->slot[vw].len);
                found.width.assign(sh->slot[vw].width, sh->slot[vw].width + sh->slot[vw].len);
                std::string m1, m2, seenMsg = found.msg; bool answered = sh->slot[vw].status == 2;
                int r1 = replayOnce(s, sh, found, thorough, m1, &flog, hang ? 60 : 120, errfile);
                std::string crashText = readTail(errfile, 5000);
                int r2 = replayOnce(s, sh, found, thorough, m2, nullptr, hang ? 60 : 120, errfile);
                if (r1 == 0 || r2 == 0 || r1 != r2) {
                    // Not a property of this one path: look for it as a property of the whole sequence of executions.
                    std::string a, b2; std::vector<int> c1, w1, c2, w2;
                    int q1 = sequenceRun(s, depth, thorough, 100, a, c1, w1), q2 = q1 ? sequenceRun(s, depth, thorough, 100, b2, c2, w2) : 0;
                    if (q1 && q2) {
                        found.sequence = true; found.choice = c1; found.width = w1;
                        found.msg = a + (c1 == c2 ? " (depends on what was executed before it in the same process)" : " (not deterministic)");
                    } else if (!found.crash && !hang && answered && seenMsg.size()) {
                        // The code gave a wrong answer here and not there: it depends on memory that nobody set, or on addresses.
                        found.msg = seenMsg + " (not deterministic: the same history gave another result when it was repeated)";
                    } else {
                    fprintf(stderr, "ENGINE: the violation found in %s (%s) does not replay (%d, %d): %s | %s\n", s.name.c_str(), found.msg.c_str(), r1, r2, m1.c_str(), m2.c_str());
                    rc = 3; found.any = false;
                    }
                } else {
                    found.msg = m1;
                    if (r1 == 2) flog.push_back("sanitizer report:\n" + crashText);
                }
            } else if (rc == 0 && depth == hi) {
                // Sample executions, written out: the first path and one from the middle of the space.
                Found f; f.depth = depth; f.scenario = s.name;
                for (int k = 0; k < 2; k++) {
                    pid_t p = fork();
                    if (p == 0) {
                        int e = open("/dev/null", O_WRONLY); dup2(e, 2);
                        struct SampleCtx : Ctx {} ;
                        Slot *sl = &sh->slot[1]; sl->len = 0;
                        Ctx c; c.sh = sh; c.slot = sl; c.depth = depth; c.thorough = thorough; c.logging = false;
                        // pick a path: repeatedly extend with choice (k ? (7*i+3)%n : 0)
                        if (k) for (int it = 0; it < 64; it++) {
                            int before = sl->len; execute(s, c, depth);
                            if (sl->len <= before) break;
                            sl->choice[before] = (7 * before + 3) % sl->width[before];
                            sl->len = before + 1;
                        }
                        c.logging = true; c.log.clear(); execute(s, c, depth);
                        std::string o = s.name + ": "; for (auto &l : c.log) o += l + "; ";
                        if (o.size() > 600) o.resize(600);
                        FILE *ff = fopen(errfile.c_str(), "w"); if (ff) { fwrite(o.data(), 1, o.size(), ff); fclose(ff); }
                        _exit(0);
                    }
                    int st; waitpid(p, &st, 0);
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) samples.push_back(readTail(errfile, 700));
                }
            }
        }
    }
    unlink(errfile.c_str());
    js += "\n ],\n";
    char b[400];
    snprintf(b, sizeof b, " \"executions\": %llu, \"transitions\": %llu, \"states\": %llu, \"outcomes\": %llu, \"leak_checked\": %llu, \"complete\": %s, \"wall_s\": %.2f,\n",
             (unsigned long long)totE, (unsigned long long)totT, (unsigned long long)totS, (unsigned long long)totO, (unsigned long long)totL, complete && !found.any ? "true" : "false", now() - start);
    js += b;
    js += " \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) js += (i ? ", " : "") + jstr(samples[i]);
    js += "],\n \"known\": [";
    bool kf = true;
    for (size_t k = 0; k < knownTable().size(); k++) if (knownCount[k]) { js += (kf ? "" : ", ") + jstr(knownTable()[k]); kf = false; }
    js += "],\n \"violation\": ";
    if (found.any) {
        js += "{\"scenario\": " + jstr(found.scenario) + ", \"depth\": " + std::to_string(found.depth) + ", \"what\": " + jstr(found.msg) + ", \"mode\": " + jstr(found.sequence ? "sequence" : "") + ", \"path\": " + jstr(pathText(found.choice, found.width)) + ", \"log\": [";
        for (size_t i = 0; i < flog.size(); i++) js += (i ? ", " : "") + jstr(flog[i]);
        js += "]}";
        rc = 1;
    } else js += "null";
    js += "}\n";
    if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); if (!f) { perror(out.c_str()); return 3; } fwrite(js.data(), 1, js.size(), f); fclose(f); }
    else fwrite(js.data(), 1, js.size(), stdout);
    return rc;
}

}  // namespace mc
