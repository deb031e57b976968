// Part of the controlled scheduler: functions of the C and C++ libraries that are not compiled with the program,
// made to announce the memory they read and write.  The calls themselves are not changed.
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <list>
#include <map>
#include <unordered_map>
#include <algorithm>
namespace sched { void readsMemory(const void *, size_t); void writesMemory(void *, size_t); }
using sched::readsMemory; using sched::writesMemory;

// What the C library keeps for the whole process: the environment, strtok's text, and the results of localtime, gmtime, ctime and asctime.
static char environmentCell[8];
extern "C" {
#define READS_ENV readsMemory(environmentCell, 8)
size_t __real_strlen(const char *); void *__real_memchr(const void *, int, size_t);
static size_t upTo(const char *s, size_t n) { const void *e = __real_memchr(s, 0, n); return e ? (size_t)((const char *)e - s) + 1 : n; }
static void reads(const char *s) { readsMemory(s, __real_strlen(s) + 1); }
char *__real_getenv(const char *); int __real_setenv(const char *, const char *, int); int __real_unsetenv(const char *); int __real_putenv(char *);
struct tm *__real_localtime(const time_t *); struct tm *__real_gmtime(const time_t *); struct tm *__real_localtime_r(const time_t *, struct tm *); struct tm *__real_gmtime_r(const time_t *, struct tm *); time_t __real_mktime(struct tm *); time_t __real_timegm(struct tm *); void __real_tzset();
char *__real_ctime(const time_t *); char *__real_asctime(const struct tm *);
size_t __real_strftime(char *, size_t, const char *, const struct tm *); char *__real_strtok(char *, const char *); char *__real_strncpy(char *, const char *, size_t); char *__real_strncat(char *, const char *, size_t);
char *__wrap_getenv(const char *n) { READS_ENV; return __real_getenv(n); }
int __wrap_setenv(const char *n, const char *v, int o) { writesMemory(environmentCell, 8); return __real_setenv(n, v, o); }
int __wrap_unsetenv(const char *n) { writesMemory(environmentCell, 8); return __real_unsetenv(n); }
int __wrap_putenv(char *n) { writesMemory(environmentCell, 8); return __real_putenv(n); }
struct tm *__wrap_localtime(const time_t *t) { READS_ENV; struct tm *r = __real_localtime(t); if (r) writesMemory(r, sizeof *r); return r; }
struct tm *__wrap_gmtime(const time_t *t) { struct tm *r = __real_gmtime(t); if (r) writesMemory(r, sizeof *r); return r; }
struct tm *__wrap_localtime_r(const time_t *t, struct tm *r) { READS_ENV; writesMemory(r, sizeof *r); return __real_localtime_r(t, r); }
struct tm *__wrap_gmtime_r(const time_t *t, struct tm *r) { writesMemory(r, sizeof *r); return __real_gmtime_r(t, r); }
char *__wrap_ctime(const time_t *t) { READS_ENV; char *r = __real_ctime(t); if (r) writesMemory(r, 26); return r; }
char *__wrap_asctime(const struct tm *t) { readsMemory(t, sizeof *t); char *r = __real_asctime(t); if (r) writesMemory(r, 26); return r; }
char *__real_ctime_r(const time_t *, char *); char *__real_asctime_r(const struct tm *, char *);
char *__wrap_ctime_r(const time_t *t, char *b) { READS_ENV; writesMemory(b, 26); return __real_ctime_r(t, b); }
char *__wrap_asctime_r(const struct tm *t, char *b) { readsMemory(t, sizeof *t); writesMemory(b, 26); return __real_asctime_r(t, b); }
time_t __wrap_mktime(struct tm *r) { READS_ENV; writesMemory(r, sizeof *r); return __real_mktime(r); }
time_t __wrap_timegm(struct tm *r) { writesMemory(r, sizeof *r); return __real_timegm(r); }
void __wrap_tzset() { READS_ENV; __real_tzset(); }
size_t __wrap_strftime(char *b, size_t n, const char *f, const struct tm *t) { READS_ENV; readsMemory(t, sizeof *t); reads(f); size_t k = __real_strftime(b, n, f, t); if (n) writesMemory(b, std::min(n, k + 1)); return k; }
static char strtokCell[8];
char *__wrap_strtok(char *s, const char *d) { writesMemory(strtokCell, 8); return __real_strtok(s, d); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { readsMemory(s, upTo(s, n)); writesMemory(d, n); return __real_strncpy(d, s, n); }
char *__wrap_strncat(char *d, const char *s, size_t n) { size_t k = upTo(s, n), o = __real_strlen(d); readsMemory(s, k); readsMemory(d, o); writesMemory(d + o, k); return __real_strncat(d, s, n); }
static void wrote(char *b, size_t room, int n) { if (n >= 0 && room) writesMemory(b, std::min(room, (size_t)n + 1)); }
int __real_vsnprintf(char *, size_t, const char *, va_list); int __real_vsprintf(char *, const char *, va_list);
int __wrap_vsnprintf(char *b, size_t n, const char *f, va_list v) { int k = __real_vsnprintf(b, n, f, v); wrote(b, n, k); return k; }
int __wrap_vsprintf(char *b, const char *f, va_list v) { int k = __real_vsprintf(b, f, v); wrote(b, (size_t)-1, k); return k; }
int __wrap_snprintf(char *b, size_t n, const char *f, ...) { va_list v; va_start(v, f); int k = __real_vsnprintf(b, n, f, v); va_end(v); wrote(b, n, k); return k; }
int __wrap_sprintf(char *b, const char *f, ...) { va_list v; va_start(v, f); int k = __real_vsprintf(b, f, v); va_end(v); wrote(b, (size_t)-1, k); return k; }
int __wrap_sscanf(const char *s, const char *f, ...) { reads(s); va_list v; va_start(v, f); int k = vsscanf(s, f, v); va_end(v); return k; }
int __wrap___isoc23_sscanf(const char *s, const char *f, ...) { reads(s); va_list v; va_start(v, f); int k = vsscanf(s, f, v); va_end(v); return k; }
// Searching and reading numbers: at most the whole text is read; the part that was needed is announced.
int __real_strncmp(const char *, const char *, size_t); int __real_strcasecmp(const char *, const char *);
const char *__real_strchr(const char *, int); const char *__real_strrchr(const char *, int); const char *__real_strstr(const char *, const char *);
int __wrap_strncmp(const char *a, const char *b, size_t n) { size_t k = 0; while (k < n && a[k] == b[k] && a[k]) k++; if (k < n) k++; readsMemory(a, k); readsMemory(b, k); return __real_strncmp(a, b, n); }
int __wrap_strcasecmp(const char *a, const char *b) { reads(a); reads(b); return __real_strcasecmp(a, b); }
const char *__wrap_strchr(const char *s, int c) { const char *r = __real_strchr(s, c); readsMemory(s, r ? r - s + 1 : __real_strlen(s) + 1); return r; }
const char *__wrap_strrchr(const char *s, int c) { reads(s); return __real_strrchr(s, c); }
const char *__wrap_strstr(const char *s, const char *p) { const char *r = __real_strstr(s, p); size_t k = __real_strlen(p); readsMemory(p, k + 1); readsMemory(s, r ? r - s + k : __real_strlen(s) + 1); return r; }
void *__wrap_memchr(const void *s, int c, size_t n) { void *r = __real_memchr(s, c, n); readsMemory(s, r ? (char *)r - (char *)s + 1 : n); return r; }
#define NUMBER(type, name, params, args) type __real_##name params; type __wrap_##name params { char *e = nullptr; { char **end = &e; __real_##name args; } readsMemory(s, e - s + 1); return __real_##name args; }
#define BOTH(type, name, params, args) NUMBER(type, name, params, args) NUMBER(type, __isoc23_##name, params, args)
BOTH(long, strtol, (const char *s, char **end, int base), (s, end, base))
BOTH(unsigned long, strtoul, (const char *s, char **end, int base), (s, end, base))
BOTH(long long, strtoll, (const char *s, char **end, int base), (s, end, base))
BOTH(unsigned long long, strtoull, (const char *s, char **end, int base), (s, end, base))
NUMBER(double, strtod, (const char *s, char **end), (s, end))
NUMBER(float, strtof, (const char *s, char **end), (s, end))
}

// The parts of std::list, std::map and std::unordered_map that live in libstdc++.so.
static void *found(const char *name) { void *f = dlsym(RTLD_NEXT, name); if (!f) abort(); return f; }
#define REAL(type, var, params, name) static type (*var) params; __attribute__((constructor)) static void find_##var() { var = (type (*) params)found(name); }
namespace std { namespace __detail {
#define LINK(p) readsMemory(&(p), 8)
#define SETS(p) writesMemory((void *)&(p), 8)
void _List_node_base::_M_hook(_List_node_base *const position) noexcept {
    SETS(_M_next); _M_next = position; LINK(position->_M_prev); SETS(_M_prev); _M_prev = position->_M_prev;
    SETS(position->_M_prev->_M_next); position->_M_prev->_M_next = this; SETS(position->_M_prev); position->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    LINK(_M_next); LINK(_M_prev); _List_node_base *const n = _M_next, *const p = _M_prev;
    SETS(p->_M_next); p->_M_next = n; SETS(n->_M_prev); n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
    if (this == last) return;
    LINK(last->_M_prev); LINK(first->_M_prev); LINK(_M_prev);
    SETS(last->_M_prev->_M_next); last->_M_prev->_M_next = this; SETS(first->_M_prev->_M_next); first->_M_prev->_M_next = last; SETS(_M_prev->_M_next); _M_prev->_M_next = first;
    _List_node_base *const before = _M_prev; SETS(_M_prev); _M_prev = last->_M_prev; SETS(last->_M_prev); last->_M_prev = first->_M_prev; SETS(first->_M_prev); first->_M_prev = before;
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base *t = this;
    do { SETS(t->_M_next); SETS(t->_M_prev); std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
REAL(void, realSwap, (_List_node_base &, _List_node_base &), "_ZNSt8__detail15_List_node_base4swapERS0_S1_")
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    if (!realSwap) find_realSwap(); LINK(x._M_next); LINK(y._M_next); SETS(x); SETS(x._M_prev); SETS(y); SETS(y._M_prev);
    if (x._M_next != &x) { SETS(x._M_next->_M_prev); SETS(x._M_prev->_M_next); } if (y._M_next != &y) { SETS(y._M_next->_M_prev); SETS(y._M_prev->_M_next); }
    realSwap(x, y);
}
typedef std::pair<bool, std::size_t> Rehash;
REAL(Rehash, realRehash, (const _Prime_rehash_policy *, std::size_t, std::size_t, std::size_t), "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm")
Rehash _Prime_rehash_policy::_M_need_rehash(std::size_t buckets, std::size_t elements, std::size_t added) const {
    if (!realRehash) find_realRehash(); LINK(_M_next_resize); std::size_t before = _M_next_resize;
    auto r = realRehash(this, buckets, elements, added); if (before != _M_next_resize) SETS(_M_next_resize); return r;
}
}
typedef _Rb_tree_node_base Tree;
static Tree *seen(Tree *x) { readsMemory(x, sizeof(Tree)); return x; }
static Tree *up(Tree *x) {     // the next node in order, or the header
    seen(x); if (x->_M_right) { x = x->_M_right; while (seen(x)->_M_left) x = x->_M_left; return x; }
    Tree *y = x->_M_parent; while (x == seen(y)->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x;
}
static Tree *down(Tree *x) {
    seen(x); if (x->_M_color == _S_red && seen(x->_M_parent)->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (seen(x)->_M_right) x = x->_M_right; return x; }
    Tree *y = x->_M_parent; while (x == seen(y)->_M_left) { x = y; y = y->_M_parent; } return y;
}
Tree *_Rb_tree_increment(Tree *x) throw() { return up(x); }
const Tree *_Rb_tree_increment(const Tree *x) throw() { return up((Tree *)x); }
Tree *_Rb_tree_decrement(Tree *x) throw() { return down(x); }
const Tree *_Rb_tree_decrement(const Tree *x) throw() { return down((Tree *)x); }
static void path(Tree *x, Tree &header) { writesMemory(&header, sizeof header); for (; x && x != &header; x = x->_M_parent) writesMemory(x, sizeof(Tree)); }
REAL(void, realInsert, (bool, Tree *, Tree *, Tree &), "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_")
void _Rb_tree_insert_and_rebalance(const bool left, Tree *x, Tree *parent, Tree &header) throw() {
    if (!realInsert) find_realInsert(); writesMemory(x, sizeof(Tree)); path(parent, header);
    realInsert(left, x, parent, header);
}
REAL(Tree *, realErase, (Tree *, Tree &), "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_")
Tree *_Rb_tree_rebalance_for_erase(Tree *const x, Tree &header) throw() {
    if (!realErase) find_realErase(); path(x, header);
    return realErase(x, header);
}
}
