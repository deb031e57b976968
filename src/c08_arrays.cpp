// C08: Arrays (sorting, searching, copying, filling, equality, hash codes) against the standard library.
#include "col_common.hpp"
#include "library/Java/Util/Arrays/Arrays.hpp"
using namespace Java::Util;
template<class P> Array<P> arr(const std::vector<P> &v) { Array<P> a; for (size_t i = 0; i < v.size(); i++) a.push(v[i]); return a; }
template<class P> std::vector<P> vect(const Array<P> &a) { std::vector<P> v; for (int i = 0; i < (int)a.length; i++) v.push_back(a.get(i)); return v; }
template<class P> struct Val { static P at(int i) { static const P V[] = {(P)0, (P)1, std::numeric_limits<P>::max(), (P)std::numeric_limits<P>::lowest(), (P)7}; return V[i]; } static std::string text(const P &p) { return std::to_string(p); } };
template<> struct Val<Integer> { static Integer at(int i) { return Integer(Val<int>::at(i)); } static std::string text(const Integer &p) { return std::to_string(p.intValue()); } };
template<> struct Val<String> { static String at(int i) { static const char *V[] = {"", "a", "b", "ab", "aa"}; return V[i]; } static std::string text(const String &p) { return S(p); } };
template<class P> std::vector<P> fill(mc::Ctx &c, int len, int vals) { std::vector<P> v; for (int i = 0; i < len; i++) v.push_back(Val<P>::at(c.choose(vals))); c.note([&] { std::string s = "["; for (const P &p : v) s += Val<P>::text(p) + ","; return s + "]"; }); uint64_t h = len; for (const P &p : v) for (char k : Val<P>::text(p)) h = mc::mix(h, k); c.state(h); return v; }
template<class P> void same(mc::Ctx &c, const std::vector<P> &a, const std::vector<P> &b, const std::string &what) { if (a.size() != b.size()) c.fail(what + ": other length"); for (size_t i = 0; i < a.size(); i++) if (Val<P>::text(a[i]) != Val<P>::text(b[i])) c.fail(what + ": element " + std::to_string(i) + " is " + Val<P>::text(a[i]) + ", expected " + Val<P>::text(b[i])); }
// sorting of a whole array and of every range (both ends included), as a plain array and as Array; what lies outside stays
template<class P> void sorting(mc::Ctx &c, int len, int vals) {
    std::vector<P> v = fill<P>(c, len, vals), s = v; std::sort(s.begin(), s.end()); P *p = new P[len]; std::copy(v.begin(), v.end(), p); std::unique_ptr<P[]> own(p);
    if (len) Arrays::sort(p, len); same(c, std::vector<P>(p, p + len), s, "sort(array)"); Array<P> a = arr(v); Arrays::sort(&a, len); same(c, vect(a), s, "sort(Array)");
    for (int f = 0; f < len; f++) for (int t = f; t < len; t++) { std::vector<P> r = v; std::sort(r.begin() + f, r.begin() + t + 1); std::copy(v.begin(), v.end(), p); Arrays::sort(p, f, t); same(c, std::vector<P>(p, p + len), r, "sort(array, from, to)"); a = arr(v); Arrays::sort(&a, f, t); same(c, vect(a), r, "sort(Array, from, to)"); }
}
template<class P> void searching(mc::Ctx &c, int len, int vals) {
    std::vector<P> v = fill<P>(c, len, vals); if (!std::is_sorted(v.begin(), v.end())) throw mc::Skip(); P *p = new P[len + 1]; std::copy(v.begin(), v.end(), p); std::unique_ptr<P[]> own(p); Array<P> a = arr(v);
    auto look = [&](int r, int f, int t, const P &key, const char *what) { bool there = std::find(v.begin() + f, v.begin() + t + 1, key) != v.begin() + t + 1; if (there ? r < f || r > t || !(v[r] == key) : r != -1) c.fail(std::string(what) + " answered " + std::to_string(r) + " for " + Val<P>::text(key) + " in " + std::to_string(f) + ".." + std::to_string(t)); };
    for (int k = 0; k < vals; k++) { P key = Val<P>::at(k); look(Arrays::binarySearchByKey(p, key, len), 0, len - 1, key, "binarySearchByKey(array)"); look(Arrays::binarySearch(a, key, len), 0, len - 1, key, "binarySearch(Array)");
        for (int f = 0; f < len; f++) for (int t = f; t < len; t++) { look(Arrays::binarySearch(p, f, t, key), f, t, key, "binarySearch(array, from, to)"); look(Arrays::binarySearch(a, f, t, key), f, t, key, "binarySearch(Array, from, to)"); } }
}
SCENARIO(sortInt, "sort of every range of all int arrays up to 6 (7) over 5 values", 0, 6, 7) { sorting<int>(c, depth, 5); }
SCENARIO(sortLong, "sort of every range of all long arrays up to 4 (6) over 5 values", 0, 4, 6) { sorting<long>(c, depth, 5); }
SCENARIO(sortChar, "sort of every range of all char arrays up to 4 (6) over 5 values", 0, 4, 6) { sorting<char>(c, depth, 5); }
SCENARIO(sortDouble, "sort of every range of all double arrays up to 5 (6) over 5 values", 0, 5, 6) { sorting<double>(c, depth, 5); }
SCENARIO(sortFloat, "sort of every range of all float arrays up to 4 (5) over 5 values", 0, 4, 5) { sorting<float>(c, depth, 5); }
SCENARIO(sortString, "sort of every range of all String arrays up to 4 (5) over 5 values", 0, 4, 5) { sorting<String>(c, depth, 5); }
SCENARIO(sortInteger, "sort of every range of all Integer arrays up to 4 (5) over 5 values", 0, 4, 5) { sorting<Integer>(c, depth, 5); }
SCENARIO(sortOrders, "sort of arrays of up to 40 numbers in 7 arrangements", 1, 1, 1) {
    int n = c.choose(41), how = c.choose(7); std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(how == 0 ? i : how == 1 ? -i : how == 2 ? i % 2 : how == 3 ? (i * 7) % 11 : how == 4 ? (i < n / 2 ? i : n - i) : how == 5 ? (i % 2 ? i : -i) : 5); c.note([&] { return std::to_string(n) + " numbers, arrangement " + std::to_string(how); }); c.state(mc::mix(n, how));
    Array<int> a = arr(v); int *p = new int[n + 1]; std::unique_ptr<int[]> own(p); std::copy(v.begin(), v.end(), p); p[n] = 77; Arrays::sort(&a, n); Arrays::sort(p, n); std::sort(v.begin(), v.end()); same(c, vect(a), v, "sort(Array)"); same(c, std::vector<int>(p, p + n), v, "sort(array)"); c.eq(p[n], 77, "the element after the array");
    for (int i = 0; i < n; i++) { int r = Arrays::binarySearch(a, v[i], n); c.check(r >= 0 && v[r] == v[i], "binarySearch() missed an element"); }
}
SCENARIO(searchInt, "binary search of 5 keys in every range of all sorted int arrays up to 6 (7) over 4 of them", 0, 6, 7) { searching<int>(c, depth, 5); }
SCENARIO(searchByte, "binary search of 5 keys in every range of all sorted byte arrays up to 5 (6)", 0, 5, 6) { searching<byte>(c, depth, 5); }
SCENARIO(searchDouble, "binary search of 5 keys in every range of all sorted double arrays up to 5 (6)", 0, 5, 6) { searching<double>(c, depth, 5); }
SCENARIO(searchInteger, "binary search of 5 keys in every range of all sorted Integer arrays up to 5 (6)", 0, 5, 6) { searching<Integer>(c, depth, 5); }
// copies, fills, equality, hash codes
template<class P> void whole(mc::Ctx &c, int len) {
    std::vector<P> v = fill<P>(c, len, len > 3 ? 2 : 5); const Array<P> a = arr(v);
    for (int n = 0; n <= len + 3; n++) { std::vector<P> w = v; w.resize(n, (P)0); same(c, vect(Arrays::copyOf(a, n)), w, "copyOf(" + std::to_string(n) + ")"); }
    for (int f = 0; f <= len; f++) for (int t = f; t <= len; t++) same(c, vect(Arrays::copyOfRange(a, f, t)), std::vector<P>(v.begin() + f, v.begin() + t), "copyOfRange(" + std::to_string(f) + ", " + std::to_string(t) + ")");
    for (int k = 0; k < 5; k++) { for (int n = -1; n <= 1; n++) for (int i = 0; i < len; i++) { std::vector<P> w = v; w[i] = Val<P>::at(k); if (n < 0) w.erase(w.begin() + i); if (n > 0) w.push_back(Val<P>::at(k)); bool e = w == v; c.eq((bool)Arrays::equals(a, arr(w)), e, "equals()"); if (e) c.eq(Arrays::hashCode(a), Arrays::hashCode(arr(w)), "hashCode() of equal arrays"); } }
}
template<class P> void fills(mc::Ctx &c, int len) {
    std::vector<P> v = fill<P>(c, len, 3); P x = Val<P>::at(c.choose(5)); { Array<P> a = arr(v); Arrays::fill(&a, x); same(c, vect(a), std::vector<P>(len, x), "fill()"); }
    for (int f = -1; f <= len; f++) for (int t = -1; t <= len; t++) { Array<P> a = arr(v); std::vector<P> w = v; if (f >= 0 && f <= t && t < len) std::fill(w.begin() + f, w.begin() + t + 1, x); Arrays::fillByIndex(&a, f, t, x); same(c, vect(a), w, "fillByIndex(" + std::to_string(f) + ", " + std::to_string(t) + ")"); }
}
SCENARIO(ints, "int: copyOf, copyOfRange, equals, fill of all arrays up to 5 (6)", 0, 5, 6) { whole<int>(c, depth); }
SCENARIO(longs, "long: copyOf, copyOfRange, equals of all arrays up to 4 (5)", 0, 4, 5) { whole<long>(c, depth); }
SCENARIO(chars, "char: copyOf, copyOfRange, equals of all arrays up to 4 (5)", 0, 4, 5) { whole<char>(c, depth); }
SCENARIO(shorts, "short: copyOf, copyOfRange, equals of all arrays up to 4 (5)", 0, 4, 5) { whole<short>(c, depth); }
SCENARIO(doubles, "double: copyOf, copyOfRange, equals of all arrays up to 4 (5)", 0, 4, 5) { whole<double>(c, depth); }
SCENARIO(fillInt, "int: fill of every range of all arrays up to 4 (5)", 0, 4, 5) { fills<int>(c, depth); }
SCENARIO(fillChar, "char: fill of every range of all arrays up to 4 (5)", 0, 4, 5) { fills<char>(c, depth); }
SCENARIO(fillDouble, "double: fill of every range of all arrays up to 4 (5)", 0, 4, 5) { fills<double>(c, depth); }
SCENARIO(booleans, "boolean: copyOf, copyOfRange, equals, hash code of all arrays up to 6 (8)", 0, 6, 8) {
    std::vector<bool> v; for (int i = 0; i < depth; i++) v.push_back(c.flip()); Array<boolean> a; for (bool b : v) a.push(b); uint64_t h = depth; for (bool b : v) h = h * 2 + b; c.state(h); auto to = [](const Array<boolean> &q) { std::vector<bool> r; for (int i = 0; i < (int)q.length; i++) r.push_back(q.get(i)); return r; };
    for (int n = 0; n <= depth + 2; n++) { std::vector<bool> w = v; w.resize(n, false); c.check(to(Arrays::copyOf(a, n)) == w, "copyOf()"); } for (int f = 0; f <= depth; f++) for (int t = f; t <= depth; t++) c.check(to(Arrays::copyOfRange(a, f, t)) == std::vector<bool>(v.begin() + f, v.begin() + t), "copyOfRange()");
    int e = depth ? 1 : 0; for (bool b : v) e = (int)(31u * (unsigned)e + (b ? 1231u : 1237u)); c.eq((int)Arrays::hashCode(a), e, "hashCode()"); for (int i = 0; i < depth; i++) { Array<boolean> b; for (int j = 0; j < depth; j++) b.push(j == i ? !v[j] : v[j]); c.check(!Arrays::equals(a, b), "equals()"); } c.check(Arrays::equals(a, a), "equals()");
}
SCENARIO(hashes, "hash codes of all int and long arrays up to 4 (5) over 5 values follow the definition", 0, 4, 5) {
    std::vector<int> v = fill<int>(c, depth, 5); unsigned h = depth ? 1 : 0, hl = h; Array<long> l; for (int i : v) { long x = (long)i * 4294967299L; l.push(x); h = 31 * h + i; hl = 31 * hl + (unsigned)(int)(x ^ (x >> 32)); } c.eq((int)Arrays::hashCode(arr(v)), (int)h, "hashCode(int[])"); c.eq((int)Arrays::hashCode(l), (int)hl, "hashCode(long[])");
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
