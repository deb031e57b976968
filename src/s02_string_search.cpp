// S02: searching and comparing agree with the definition for every text, pattern and start index.
#include "jn.hpp"
using namespace jav;

static std::string word(mc::Ctx &c, const std::string &alpha, int maxLen) {
    int n = c.range(0, maxLen); std::string s;
    for (int i = 0; i < n; i++) s += alpha[c.choose((int)alpha.size())];
    return s;
}
static int sgn(int x) { return (x > 0) - (x < 0); }
// definitions
static int first(const std::string &s, const std::string &p, int from) {
    for (int i = std::max(from, 0); i + (int)p.size() <= (int)s.size(); i++) if (s.compare(i, p.size(), p) == 0) return i;
    return -1;
}
static int last(const std::string &s, const std::string &p, int from) {
    for (int i = std::min(from, (int)s.size() - (int)p.size()); i >= 0; i--) if (s.compare(i, p.size(), p) == 0) return i;
    return -1;
}
// A CharSequence that is not a String.
struct Seq : Java::Lang::CharSequence {
    std::string s; Seq(const std::string &x) : s(x) {}
    String toString() const override { return String(s); }
    char charAt(int i) const override { return s.at(i); }
    int length() const override { return (int)s.size(); }
};

static void substringSearch(mc::Ctx &c, const std::string &s, const std::string &p) {
    String x(s), y(p);
    c.note([&] { return "text " + mc::show(s) + ", pattern " + mc::show(p); });
    c.state(mc::hashStr(s, mc::hashStr(p)));
    bool in = s.find(p) != std::string::npos;
    c.eq((bool)x.contains(y), in, "contains(String)");
    Seq q(p); c.eq((bool)x.contains((const CharSequence &)q), in, "contains(CharSequence)");
    c.eq((bool)x.startsWith(y), s.compare(0, p.size(), p) == 0 && p.size() <= s.size(), "startsWith(prefix)");
    c.eq((bool)x.endsWith(y), p.size() <= s.size() && s.compare(s.size() - p.size(), p.size(), p) == 0, "endsWith(suffix)");
    if (!p.empty()) {
        c.eq(x.indexOf(y), first(s, p, 0), "indexOf(String)");
        c.eq(x.lastIndexOf(y), last(s, p, (int)s.size()), "lastIndexOf(String)");
    }
    for (int from = -2; from <= (int)s.size() + 2; from++) {
        auto w = [&](const char *n) { static thread_local std::string b; b = std::string(n) + " with start " + std::to_string(from); return b.c_str(); };
        if (!p.empty()) {
            c.eq(x.indexOf(y, from), first(s, p, from), w("indexOf(String)"));
            // The start index of lastIndexOf(String, int) is defined here where the pattern still fits behind it, and past the end.
            if (from < 0 || from + (int)p.size() <= (int)s.size() || from >= (int)s.size()) c.eq(x.lastIndexOf(y, from), last(s, p, from), w("lastIndexOf(String)"));
        }
        c.eq((bool)x.startsWith(y, from), from >= 0 && from + (int)p.size() <= (int)s.size() && s.compare(from, p.size(), p) == 0, w("startsWith(prefix)"));
    }
}
SCENARIO(search2, "all texts and patterns over {a,b}", 4, 8, 10) { std::string s = word(c, "ab", depth), p = word(c, "ab", depth - 2); substringSearch(c, s, p); }
SCENARIO(search4, "all texts and patterns over {a,b,NUL,0xE9}", 2, 5, 6) { std::string a("ab\0\xe9", 4); std::string s = word(c, a, depth), p = word(c, a, std::min(depth, 2)); substringSearch(c, s, p); }
SCENARIO(searchLong, "periodic texts around the small-string limit", 1, 1, 2) {
    int n = 13 + c.choose(6) + (depth > 1 ? 40 * c.choose(3) : 0), per = 1 + c.choose(4); std::string s, p;
    for (int i = 0; i < n; i++) s += (i % per == 0) ? 'a' : 'b';
    int at = c.range(0, n - 1), len = 1 + c.choose(std::min(n - at, 20)); p = s.substr(at, len);
    int flip = c.choose(3); if (flip) p[flip == 1 ? 0 : len - 1] = 'c';
    substringSearch(c, s, p);
}

SCENARIO(characters, "every character over a text x every start index", 3, 6, 7) {
    std::string a("ab\0\xff", 4); std::string s = word(c, a, depth); char ch = std::string("ab\0\xffz", 5)[c.choose(5)];
    String x(s); c.note([&] { return "text " + mc::show(s) + ", character " + mc::show(std::string(1, ch)); });
    c.state(mc::hashStr(s, ch));
    c.eq(x.indexOf((int)ch), first(s, std::string(1, ch), 0), "indexOf(char)");
    c.eq(x.lastIndexOf((int)ch), last(s, std::string(1, ch), 1000), "lastIndexOf(char)");
    for (int from = -2; from <= (int)s.size() + 2; from++) {
        c.eq(x.indexOf((int)ch, from), first(s, std::string(1, ch), from), "indexOf(char, from)");
        c.eq(x.lastIndexOf((int)ch, from), last(s, std::string(1, ch), from), "lastIndexOf(char, from)");
    }
}

SCENARIO(compare, "all pairs of texts over {a,A,b,NUL,0xE9}: order, equality, equality ignoring case, contentEquals", 2, 4, 5) {
    std::string al("aAb\0\xe9", 5); std::string s = word(c, al, depth), t = word(c, al, std::min(depth, 3));
    String x(s), y(t); c.note([&] { return mc::show(s) + " and " + mc::show(t); });
    c.state(mc::hashStr(s, mc::hashStr(t)));
    auto low = [](std::string v) { for (auto &ch : v) if (ch >= 'A' && ch <= 'Z') ch = ch - 'A' + 'a'; return v; };
    c.eq(sgn(x.compareTo(y)), sgn(s.compare(t)), "sign of compareTo");
    c.eq(sgn(y.compareTo(x)), -sgn(s.compare(t)), "antisymmetry of compareTo");
    c.eq(sgn(x.compareToIgnoreCase(y)), sgn(low(s).compare(low(t))), "sign of compareToIgnoreCase");
    c.eq((bool)x.equals(y), s == t, "equals"); c.eq((bool)x.equalsIgnoreCase(y), low(s) == low(t), "equalsIgnoreCase");
    c.eq((bool)x.contentEquals(y), s == t, "contentEquals(String)"); Seq q(t); c.eq((bool)x.contentEquals(q), s == t, "contentEquals(CharSequence)");
    c.eq((bool)(x < y), s < t, "<"); c.eq((bool)(x <= y), s <= t, "<="); c.eq((bool)(x > y), s > t, ">"); c.eq((bool)(x >= y), s >= t, ">=");
    c.eq((bool)(x == y), s == t, "=="); c.eq((bool)(x != y), s != t, "!=");
    uint32_t h = 0; for (char ch : s) h = 31u * h + (uint32_t)(int)ch;
    c.eq((long)x.hashCode(), (long)(int)h, "hashCode()");
}

SCENARIO(regions, "regionMatches for all texts over {a,A,b}, offsets and lengths with the first region inside its text", 3, 4, 5) {
    std::string s = word(c, "aAb", depth), t = word(c, "aAb", depth); bool ic = c.flip();
    int a = c.range(-1, depth), b = c.range(-1, depth), n = c.range(0, depth);
    bool in1 = a >= 0 && a + n <= (int)s.size(), in2 = b >= 0 && b + n <= (int)t.size();
    if (!in1 && !in2) throw mc::Skip();      // the existing tests fix "true" for two regions outside their texts
    if (n == 0) throw mc::Skip();
    auto low = [](std::string v) { for (auto &ch : v) if (ch >= 'A' && ch <= 'Z') ch = ch - 'A' + 'a'; return v; };
    bool want = false;
    if (in1 && in2) { std::string u = s.substr(a, n), v = t.substr(b, n); want = ic ? low(u) == low(v) : u == v; }
    c.note([&] { return mc::show(s) + ".regionMatches(" + (ic ? "true, " : "false, ") + std::to_string(a) + ", " + mc::show(t) + ", " + std::to_string(b) + ", " + std::to_string(n) + ")"; });
    c.state(mc::hashStr(s, mc::hashStr(t, a * 31 + b * 7 + n)));
    String x(s), y(t);
    c.eq((bool)x.regionMatches(ic, a, y, b, n), want, "regionMatches(ignoreCase, ...)");
    if (!ic) c.eq((bool)x.regionMatches(a, y, b, n), want, "regionMatches(...)");
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
