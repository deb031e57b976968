// S01: String is a value: every observer of a string agrees with the sequence of bytes that its history of
// constructions, assignments and in-place modifications produced, and no two strings share state.
#include "jn.hpp"
#include <unordered_map>
using namespace jav;

static int refHash(const std::string &s) { uint32_t h = 0; for (char c : s) h = 31u * h + (uint32_t)(int)c; return (int)h; }
static int sgn(int x) { return (x > 0) - (x < 0); }
static std::string cstr(const std::string &s) { return std::string(s.c_str()); }

// Everything a user can see of a single string.
static void view(mc::Ctx &c, const String &x, const std::string &m, const char *who) {
    auto lbl = [&](const char *w) { static thread_local std::string b; b = std::string(who) + "." + w; return b.c_str(); };
    c.eq(x.length(), (int)m.size(), lbl("length()"));
    c.eq(x.getSize(), (int)m.size(), lbl("getSize()"));
    c.eq((bool)x.isEmpty(), m.empty(), lbl("isEmpty()"));
    c.eq(x.toSTLString(), m, lbl("toSTLString()"));
    c.eq((std::string)x, m, lbl("operator std::string"));
    c.eq(std::string((const char *)x.toCharPointer(), m.size() + 1), std::string(m.c_str(), m.size() + 1), lbl("toCharPointer()"));
    c.eq(std::string((const_string)x, m.size()), m, lbl("operator const_string"));
    c.eq(std::string((string)x, m.size()), m, lbl("operator string"));
    c.eq((long)x.hashCode(), (long)refHash(m), lbl("hashCode()"));
    std::string b, ca, at, br;
    Array<byte> by = x.getBytes(); for (int i = 0; i < by.length; i++) b += (char)by.get(i);
    Array<char> ch = x.toCharArray(); for (int i = 0; i < ch.length; i++) ca += ch.get(i);
    for (int i = 0; i < x.length(); i++) { at += x.charAt(i); br += x[i]; }
    c.eq(b, m, lbl("getBytes()")); c.eq(ca, m, lbl("toCharArray()")); c.eq(at, m, lbl("charAt()")); c.eq(br, m, lbl("operator[]"));
    c.eq(S(x.toString()), m, lbl("toString()"));
    std::ostringstream os; os << x; c.eq(os.str(), m, lbl("operator<<"));
    for (int i : {-1, (int)m.size(), (int)m.size() + 7, INT_MIN, INT_MAX})
        c.eq(attemptAs<StringIndexOutOfBoundsException>("StringIndexOutOfBoundsException", [&] { return x.charAt(i); }), thrown<char>("StringIndexOutOfBoundsException"), lbl("charAt(out of range)"));
}
static void relate(mc::Ctx &c, const String &x, const std::string &m, const String &y, const std::string &n) {
    c.eq((bool)x.equals(y), m == n, "x.equals(y)"); c.eq((bool)(x == y), m == n, "x == y"); c.eq((bool)(x != y), m != n, "x != y");
    c.eq((bool)(x < y), m < n, "x < y"); c.eq((bool)(x > y), m > n, "x > y"); c.eq((bool)(x <= y), m <= n, "x <= y"); c.eq((bool)(x >= y), m >= n, "x >= y");
    c.eq(sgn(x.compareTo(y)), sgn(m.compare(n)), "sign of x.compareTo(y)");
    if (m == n) c.eq(std::hash<String>()(x), std::hash<String>()(y), "std::hash of equal strings");
}

static const std::vector<std::string> &literals() {
    static const std::vector<std::string> v = {"", "a", "ab", std::string("a\0b", 3), "\xc3\xa9", "123456789012345", "1234567890123456", "a longer text of thirty-three byte"};
    return v;
}

// One way of making a String out of bytes.
static const int NBUILD = 12;
static bool cutsAtNul(int k) { return k == 0 || k == 1 || k == 11; }
static String build(int k, const std::string &s) {
    switch (k) {
        case 0: return String((const_string)s.c_str());
        case 1: return String((string)s.c_str());
        case 2: return String(s);
        case 3: return String((string)s.data(), (int)s.size());
        case 4: return String((const_string)s.data(), (int)s.size());
        case 5: { Array<char> a; for (char ch : s) a.push(ch); return String(a); }
        case 6: { Array<byte> a; for (char ch : s) a.push((byte)ch); return String(a); }
        case 7: { Array<char> a; a.push('#'); for (char ch : s) a.push(ch); a.push('#'); return String(a, 1, (int)s.size()); }
        case 8: { Array<byte> a; a.push('#'); for (char ch : s) a.push((byte)ch); a.push('#'); return String(a, 1, (int)s.size()); }
        case 9: { Array<char> a; a.push('#'); for (char ch : s) a.push(ch); a.push('#'); return String::copyValueOf(a, 1, (int)s.size()); }
        case 10: { Array<char> a; for (char ch : s) a.push(ch); return String::fromCharArray(a); }
        default: return String::valueOf((const_string)s.c_str());
    }
}

SCENARIO(construct, "every constructor x every literal, then one modification, compared with a second construction", 1, 1, 2) {
    const std::string &l = c.pick(literals()); int k = c.choose(NBUILD);
    String x = build(k, l); std::string m = cutsAtNul(k) ? cstr(l) : l;
    c.note([&] { return "constructor " + std::to_string(k) + " of " + mc::show(l); });
    view(c, x, m, "x");
    const std::string &l2 = c.pick(literals()); int k2 = c.choose(NBUILD);
    String y = build(k2, l2); std::string n = cutsAtNul(k2) ? cstr(l2) : l2;
    c.note([&] { return "compared with constructor " + std::to_string(k2) + " of " + mc::show(l2); });
    relate(c, x, m, y, n);
    c.state(mc::hashStr(m, mc::hashStr(n)));
    view(c, x, m, "x"); view(c, y, n, "y");
    c.eq(S(x.concat(y)), m + n, "x.concat(y)");
    String z = x + y; c.eq(S(z), m + n, "x + y");
    if (depth >= 2) { String w = y + z; view(c, w, n + m + n, "y+x+y"); }
}

SCENARIO(badRanges, "array constructors with every offset and count around the array's ends", 4, 4, 6) {
    int len = c.range(0, depth), off = c.range(-2, depth + 2), cnt = c.range(-2, depth + 2); int which = c.choose(3);
    Array<char> a; Array<byte> b; std::string m;
    for (int i = 0; i < len; i++) { a.push((char)('a' + i)); b.push((byte)(0xf0 + i)); }
    bool ok = off >= 0 && cnt >= 0 && off <= len - cnt;
    auto r = attemptAs<StringIndexOutOfBoundsException>("StringIndexOutOfBoundsException", [&] { return which == 0 ? S(String(a, off, cnt)) : which == 1 ? S(String(b, off, cnt)) : S(String::copyValueOf(a, off, cnt)); });
    if (ok) for (int i = off; i < off + cnt; i++) m += which == 1 ? (char)(0xf0 + i) : (char)('a' + i);
    c.note([&] { return "String(array of " + std::to_string(len) + ", " + std::to_string(off) + ", " + std::to_string(cnt) + ")"; });
    c.eq(r, ok ? ret(m) : thrown<std::string>("StringIndexOutOfBoundsException"), "String(array, offset, count)");
    c.state(mc::mix(mc::hashStr(m), ok));
    // getChars with the same ranges into an array of the same length
    Array<char> dst; std::string dm; for (int i = 0; i < len; i++) { dst.push('-'); dm += '-'; }
    String src = "ABCDEF"; int end = c.range(-1, 7);
    bool gok = off >= 0 && off <= end && end <= 6 && cnt >= 0 && cnt + (end - off) <= len;
    auto g = attemptAs<StringIndexOutOfBoundsException>("StringIndexOutOfBoundsException", [&] { src.getChars(off, end, dst, cnt); return 0; });
    c.note([&] { return "getChars(" + std::to_string(off) + ", " + std::to_string(end) + ", dst, " + std::to_string(cnt) + ")"; });
    c.eq(g, gok ? ret(0) : thrown<int>("StringIndexOutOfBoundsException"), "getChars()");
    if (gok) for (int i = off; i < end; i++) dm[cnt + i - off] = "ABCDEF"[i];
    std::string got; for (int i = 0; i < dst.length; i++) got += dst[i];
    c.eq(got, dm, "destination of getChars()");
}

static void histories(mc::Ctx &c, int depth, bool small) {
    String x, y; std::string m, n;
    // distinct starting values, one of them beyond the small-string limit
    int init = c.choose(3);
    if (init == 1) { x = "ab"; m = "ab"; } else if (init == 2) { x = "fifteen chars.."; m = "fifteen chars.."; y = "b"; n = "b"; }
    (void)x.hashCode(); (void)y.hashCode();
    for (int step = 0; step < depth; step++) {
        int op = c.choose(small ? 14 : 28);
        switch (op) {
            case 0: x = y; m = n; c.note([] { return "x = y"; }); break;
            case 1: y = x; n = m; c.note([] { return "y = x"; }); break;
            case 2: x += y; m += n; c.note([] { return "x += y"; }); break;
            case 3: x += 'a'; m += 'a'; c.note([] { return "x += 'a'"; }); break;
            case 4: x += '\0'; m += '\0'; c.note([] { return "x += NUL"; }); break;
            case 5: y += (const_string)"b\xe9"; n += "b\xe9"; c.note([] { return "y += \"b\\xe9\""; }); break;
            case 6: if (m.empty()) throw mc::Skip(); x[0] = 'z'; m[0] = 'z'; c.note([] { return "x[0] = 'z'"; }); break;
            case 7: if (n.empty()) throw mc::Skip(); y[(int)n.size() - 1] = 'q'; n[n.size() - 1] = 'q'; c.note([] { return "y[last] = 'q'"; }); break;
            case 8: { String t(x); t += 'x'; if (t.length()) t[0] = '!'; c.note([] { return "copy of x, modified and dropped"; }); } break;
            case 9: { String t = x.clone(); c.eq(S(t), m, "clone()"); y = t; n = m; if (t.length()) t[0] = '?'; c.note([] { return "y = x.clone(), clone modified"; }); } break;
            case 10: x = x + y; m = m + n; c.note([] { return "x = x + y"; }); break;
            case 11: x = ""; m = ""; c.note([] { return "x = \"\""; }); break;
            case 12: x += x; m += m; c.note([] { return "x += x"; }); break;
            case 13: { String &r = x; x = r; c.note([] { return "x = x"; }); } break;
            case 14: x = "0123456789abcde"; m = "0123456789abcde"; c.note([] { return "x = 15 characters"; }); break;
            case 15: y = "0123456789abcdef"; n = "0123456789abcdef"; c.note([] { return "y = 16 characters"; }); break;
            case 16: y = y.concat(x); n = n + m; c.note([] { return "y = y.concat(x)"; }); break;
            case 17: { auto p = x.toString(); x += 'k'; m += 'k'; c.eq(S(p), m.substr(0, m.size() - 1), "string taken before a modification"); c.note([] { return "t = x.toString(); x += 'k'"; }); } break;
            case 18: { Array<char> a = x.toCharArray(); for (int i = 0; i < a.length; i++) a[i] = '*'; c.note([] { return "x.toCharArray() overwritten"; }); } break;
            case 19: { Array<byte> a = y.getBytes(); for (int i = 0; i < a.length; i++) a[i] = '*'; c.note([] { return "y.getBytes() overwritten"; }); } break;
            case 20: x = x.subString(0, (int)m.size() / 2); m = m.substr(0, m.size() / 2); c.note([] { return "x = first half of x"; }); break;
            case 21: y = n.empty() ? y : y.getStringFromIndex((int)n.size() / 2); n = n.substr(n.size() / 2); c.note([] { return "y = second half of y"; }); break;
            case 22: std::swap(x, y); std::swap(m, n); c.note([] { return "swap(x, y)"; }); break;
            case 23: { std::vector<String> v; v.push_back(x); v.push_back(y); v.push_back(x); v.erase(v.begin()); y = v[1]; n = m; c.note([] { return "y = x through a vector"; }); } break;
            case 24: x = x.replace('a', 'A'); std::replace(m.begin(), m.end(), 'a', 'A'); c.note([] { return "x = x.replace('a', 'A')"; }); break;
            case 25: x += (const_string)""; c.note([] { return "x += \"\""; }); break;
            case 26: { StringBuilder b; b.append(String(cstr(n))); x = b.toString(); m = cstr(n); c.note([] { return "x = StringBuilder(y).toString()"; }); } break;
            default: x = String(nullptr); m = ""; c.note([] { return "x = String(nullptr)"; }); break;
        }
        if (m.size() + n.size() > 200) throw mc::Skip();
        c.state(mc::hashStr(m, mc::hashStr(n)));
        view(c, x, m, "x"); view(c, y, n, "y"); relate(c, x, m, y, n);
    }
    c.outcome(mc::hashStr(m, mc::hashStr(n)));
}
SCENARIO_NOLEAK(histories, "all histories of 28 operations over two strings", 1, 3, 4) { histories(c, depth, false); }
SCENARIO(deepHistories, "longer histories of the 14 basic operations", 4, 4, 5) { histories(c, depth, true); }

SCENARIO(collectionsOfStrings, "strings as keys of ordered and hashed containers after every modification history", 2, 3, 4) {
    std::map<String, int> om; std::unordered_map<String, int> um; std::map<std::string, int> rm;
    String x; std::string m;
    for (int i = 0; i < depth; i++) {
        switch (c.choose(5)) {
            case 0: x += 'a'; m += 'a'; break;
            case 1: x += '\0'; m += '\0'; break;
            case 2: x += '\xff'; m += '\xff'; break;
            case 3: x = ""; m = ""; break;
            default: if (!m.empty()) { x[0] = 'b'; m[0] = 'b'; } break;
        }
        c.note([&] { return "insert " + mc::show(m); });
        om[x] = i; um[x] = i; rm[m] = i;
        c.state(mc::hashStr(m, rm.size()));
        c.eq(om.size(), rm.size(), "number of keys in std::map<String>"); c.eq(um.size(), rm.size(), "number of keys in std::unordered_map<String>");
        auto it = om.begin();
        for (auto &e : rm) { c.eq(S(it->first), e.first, "order of keys"); c.eq(it->second, e.second, "value"); ++it; c.eq(um[J(e.first)], e.second, "hashed lookup"); }
    }
}

int main(int argc, char **argv) { return mc::main(argc, argv); }
