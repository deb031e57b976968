// T06: ids made by several threads of one process, under every schedule.  The state file is replaced by one of the harness.
#include "mcsched.hpp"
#include "jn.hpp"
#include "library/Java/Util/UUID/UUID.hpp"
#include <cstdarg>
#include <elf.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
using namespace jav;
using namespace Java::Lang;
using namespace Java::Util;
typedef unsigned long Q;
static bool active, file; static std::string path; static FILE *opened;
extern "C" {
int __real_open(const char *, int, ...); int __real_flock(int, int); FILE *__real_fdopen(int, const char *); int __real_fflush(FILE *);
int __wrap_open(const char *p, int flags, ...) {
    va_list v; va_start(v, flags); int mode = va_arg(v, int); va_end(v); if (!active) return __real_open(p, flags, mode);
    sched::point("opens a file"); if (!strncmp(p, "/dev/", 5)) return __real_open(p, flags, mode); if (!file) { errno = EACCES; return -1; } return __real_open(path.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600);
}
int __wrap_flock(int fd, int op) { if (active) sched::point("locks or unlocks the file"); return __real_flock(fd, op); }
FILE *__wrap_fdopen(int fd, const char *m) { FILE *f = __real_fdopen(fd, m); if (active) opened = f; return f; }
int __wrap_fflush(FILE *f) { if (active) sched::point("writes the file"); return __real_fflush(f); }
}
// The static variables of the code under test, as they are in a process that has not made an id yet.
struct Statics {
    std::vector<std::pair<char *, std::string>> v;
    Statics() {
        FILE *f = fopen("/proc/self/exe", "rb"); if (!f) return; std::string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
        auto *h = (Elf64_Ehdr *)s.data(); auto *sec = (Elf64_Shdr *)(s.data() + h->e_shoff); if (h->e_type != ET_EXEC) return;
        for (int i = 0; i < h->e_shnum; i++) if (sec[i].sh_type == SHT_SYMTAB) {
            auto *sym = (Elf64_Sym *)(s.data() + sec[i].sh_offset); const char *names = s.data() + sec[sec[i].sh_link].sh_offset; bool mine = false;
            for (size_t k = 0; k < sec[i].sh_size / sizeof *sym; k++) {
                int type = ELF64_ST_TYPE(sym[k].st_info); std::string name = names + sym[k].st_name;
                if (type == STT_FILE) mine = name == "gen_uuid.c" || name == "randutils.c" || name == "UUID.cpp";
                if (ELF64_ST_BIND(sym[k].st_info) != STB_LOCAL) { if (name.find("UUID") == std::string::npos) continue; } else if (!mine) continue;
                if (type != STT_OBJECT || !sym[k].st_size || sym[k].st_shndx == SHN_UNDEF || sym[k].st_shndx >= h->e_shnum || !(sec[sym[k].st_shndx].sh_flags & SHF_WRITE) || name.compare(0, 3, "_ZT") == 0) continue;
                v.push_back({(char *)sym[k].st_value, std::string((char *)sym[k].st_value, sym[k].st_size)});
            }
        }
    }
    void restore() { if (opened) { fclose(opened); opened = nullptr; } for (auto &x : v) for (size_t i = 0; i < x.second.size(); i++) ((volatile char *)x.first)[i] = x.second[i]; }
};
static Statics &statics() { static Statics *s = new Statics; return *s; }
static Q ticks(Q m) { return m >> 32 | (m >> 16 & 0xffff) << 32 | (m & 0xfff) << 48; }
static Q clockTicks() { struct timeval t; gettimeofday(&t, nullptr); return ((Q)t.tv_sec * 1000000 + t.tv_usec) * 10 + 0x01B21DD213814000ULL; }
struct Id { Q m, l, from, to; char kind; };
// Programs are texts: t timeUUID, r randomUUID.
static void go(mc::Ctx &c, int bound, const std::vector<std::string> &plan, bool first, bool withFile, int step) {
    c.note([&] { std::string s = std::string(first ? "the first ids of a process" : "ids were made before") + (withFile ? ", a state file" : ", no state file") + ", " + std::to_string(step) + " ns per look at the clock;"; for (auto &t : plan) { s += " thread:"; for (char k : t) s += k == 't' ? " timeUUID" : " randomUUID"; s += ";"; } return s; });
    if (path.empty()) { char t[] = "uuid-state-XXXXXX"; int fd = mkstemp(t); if (fd >= 0) close(fd); char cwd[200]; path = std::string(getcwd(cwd, sizeof cwd)) + "/" + t; }
    Statics &st = statics(); c.check(!st.v.empty(), "harness error: no static variables"); st.restore(); unlink(path.c_str()); file = withFile;
    int n = 0; for (auto &t : plan) n += (int)t.size(); std::vector<Id> got(n);
    sched::run(c, bound, [&] {
        sched::clock(step); active = true; if (!first) UUID::timeUUID(); int at = 0;
        for (size_t t = 0; t < plan.size(); t++) { int from = at; at += (int)plan[t].size(); sched::spawn([&, t, from] { for (size_t k = 0; k < plan[t].size(); k++) {
            if (k) sched::point(); Id &i = got[from + k]; i.kind = plan[t][k]; i.from = clockTicks(); UUID u = i.kind == 't' ? UUID::timeUUID() : UUID::randomUUID(); i.m = u.getMostSignificantBits(); i.l = u.getLeastSignificantBits(); i.to = clockTicks(); } }); }
        sched::joinAll(); active = false;
    });
    active = false; std::set<std::pair<Q, Q>> seen; uint64_t h = 0;
    for (auto &i : got) {
        char text[80]; snprintf(text, 80, "%016lx-%016lx", i.m, i.l); c.checkf(seen.insert({i.m, i.l}).second, [&] { return std::string("the id ") + text + " was given out twice"; }); c.eq((int)(i.m >> 12 & 15), i.kind == 't' ? 1 : 4, "version"); c.eq((int)(i.l >> 62), 2, "variant");
        if (i.kind == 't') { h = mc::mix(h, ticks(i.m) - got[0].from); c.checkf(ticks(i.m) >= i.from && ticks(i.m) < i.to + 10, [&] { return std::string("the time of the id ") + text + " is " + std::to_string((long)(ticks(i.m) - i.from)) + " ticks after its creation began, which took " + std::to_string(i.to - i.from); }); for (auto &j : got) if (j.kind == 't') c.check((j.l & 0xffffffffffffUL) == (i.l & 0xffffffffffffUL), "two ids of one process have different nodes"); }
    }
    c.outcome(h);
}
SCENARIO(pairs, "two threads that make an id each", 0, 3, 4) { static const char *P[] = {"t", "r"}; int i = c.choose(2), j = i + c.choose(2 - i); bool first = c.flip(), f = c.flip(); int step = c.pick({0, 1}) ? 1000 : 40; go(c, depth, {P[i], P[j]}, first, f, step); }
SCENARIO(two, "two threads that make two ids each", 0, 2, 3) { static const char *P[] = {"tt", "tr", "rt"}; int i = c.choose(3), j = i + c.choose(3 - i); bool first = c.flip(), f = c.flip(); go(c, depth, {P[i], P[j]}, first, f, 40); }
SCENARIO(three, "three threads that make an id each", 0, 2, 2) { bool first = c.flip(), f = c.flip(), r = c.flip(); go(c, depth, {"t", "t", r ? "r" : "t"}, first, f, 40); }
SCENARIO(burst, "two threads that make six ids each within few microseconds", 0, 2, 2) { bool f = c.flip(); go(c, depth, {"tttttt", "tttttt"}, false, f, 20); }
int main(int argc, char **argv) { return mc::main(argc, argv); }
