// S03: string transformations agree with their definitions and leave their operands unchanged.
#include "jn.hpp"
using namespace jav;
static std::string word(mc::Ctx &c, const std::string &alpha, int maxLen) {
    int n = c.range(0, maxLen); std::string s;
    for (int i = 0; i < n; i++) s += alpha[c.choose((int)alpha.size())];
    return s;
}
static std::string repl(const std::string &s, const std::string &p, const std::string &r) {
    std::string o; size_t i = 0;
    if (p.empty()) { o = r; for (char ch : s) { o += ch; o += r; } return o; }
    while (i < s.size()) { if (s.compare(i, p.size(), p) == 0 && i + p.size() <= s.size()) { o += r; i += p.size(); } else o += s[i++]; }
    return o;
}
static std::vector<std::string> cut(const std::string &s, const std::string &p) {
    std::vector<std::string> v; std::string cur; size_t i = 0;
    while (i < s.size()) { if (s.compare(i, p.size(), p) == 0 && i + p.size() <= s.size()) { v.push_back(cur); cur = ""; i += p.size(); } else cur += s[i++]; }
    v.push_back(cur); return v;
}
static void body(mc::Ctx &c, const std::string &s, const std::string &p, const std::string &r) {
    String x(s), y(p), z(r); c.state(mc::hashStr(s, mc::hashStr(p, mc::hashStr(r))));
    c.note([&] { return "text " + mc::show(s) + ", target " + mc::show(p) + ", replacement " + mc::show(r); });
    c.eq(S(x.replace((const CharSequence &)y, (const CharSequence &)z)), repl(s, p, r), "replace(target, replacement)");
    if (!p.empty()) c.eq(S(x.replaceAll(y, z)), repl(s, p, r), "replaceAll of a literal");
    if (!p.empty()) {
        std::string f = s; size_t at = s.find(p); if (at != std::string::npos) f = s.substr(0, at) + r + s.substr(at + p.size());
        c.eq(S(x.replaceFirst(y, z)), f, "replaceFirst of a literal");
        auto parts = cut(s, p);
        c.eq(vecS(x.split(y)), parts, "split(separator)");
        for (int lim = -1; lim <= (int)parts.size() + 1; lim++) {
            std::vector<std::string> w;
            if (lim <= 0 || lim > (int)parts.size()) w = parts;
            else { std::string rest = s; for (int k = 0; k + 1 < lim; k++) { w.push_back(parts[k]); rest = rest.substr(parts[k].size() + p.size()); } w.push_back(rest); }
            c.eq(vecS(x.split(y, lim)), w, "split(separator, limit)");
        }
        // joining the pieces gives the text back
        std::string back; for (size_t i = 0; i < parts.size(); i++) { if (i) back += p; back += parts[i]; }
        c.eq(back, s, "split/join (reference)");
    }
    c.eq(S(x), s, "the text itself afterwards"); c.eq(S(y), p, "the target afterwards"); c.eq(S(z), r, "the replacement afterwards");
}
SCENARIO(replaceSplit, "all texts over {a,b,NUL}, targets up to 2, six replacements", 3, 6, 7) {
    std::string al("ab\0", 3); std::string s = word(c, al, depth), p = word(c, al, 2);
    static const std::vector<std::string> R = {"", "a", "b", "ab", "aa", std::string("\0x", 2)};
    body(c, s, p, c.pick(R));
}
SCENARIO(replaceSplit2, "longer texts over {a,b}, targets up to 4", 6, 9, 11) {
    std::string s = word(c, "ab", depth), p = word(c, "ab", 4); static const std::vector<std::string> R = {"", "a", "abcde"};
    body(c, s, p, c.pick(R));
}
SCENARIO(charReplace, "replace(char, char) over {a,b,NUL,0xE9}", 3, 6, 7) {
    std::string al("ab\0\xe9", 4); std::string s = word(c, al, depth); char o = al[c.choose(4)], n = al[c.choose(4)];
    std::string w = s; std::replace(w.begin(), w.end(), o, n); c.state(mc::hashStr(w));
    c.note([&] { return mc::show(s) + " replace " + mc::show(std::string(1, o)) + " by " + mc::show(std::string(1, n)); });
    String x(s); c.eq(S(x.replace(o, n)), w, "replace(char, char)"); c.eq(S(x), s, "the text afterwards");
}
SCENARIO(trimCase, "trim, toLowerCase, toUpperCase over {blank,tab,newline,a,Z,NUL,0,e-acute,E-acute}", 3, 6, 7) {
    static const std::vector<std::string> U = {" ", "\t", "\n", "a", "Z", std::string(1, '\0'), "0", "\xc3\xa9", "\xc3\x89"};
    static const std::vector<std::string> LO = {" ", "\t", "\n", "a", "z", std::string(1, '\0'), "0", "\xc3\xa9", "\xc3\xa9"};
    static const std::vector<std::string> UP = {" ", "\t", "\n", "A", "Z", std::string(1, '\0'), "0", "\xc3\x89", "\xc3\x89"};
    int n = c.range(0, depth); std::string s, lo, up; std::vector<int> k;
    for (int i = 0; i < n; i++) { int j = c.choose((int)U.size()); k.push_back(j); s += U[j]; lo += LO[j]; up += UP[j]; }
    size_t b = 0, e = s.size(); while (b < e && strchr(" \t\n", s[b]) && s[b]) b++; while (e > b && strchr(" \t\n", s[e - 1]) && s[e - 1]) e--;
    c.note([&] { return mc::show(s); }); c.state(mc::hashStr(s));
    String x(s);
    c.eq(S(x.toLowerCase()), lo, "toLowerCase()"); c.eq(S(x.toUpperCase()), up, "toUpperCase()");
    bool edgeNul = b < e && (s[b] == 0 || s[e - 1] == 0);   // whether NUL at an edge is white space is left open
    if (!edgeNul) c.eq(S(x.trim()), s.substr(b, e - b), "trim()");
    c.eq(S(x), s, "the text afterwards");
}
SCENARIO(asciiCase, "toLowerCase/toUpperCase/equalsIgnoreCase of every single 7-bit character, alone and inside a word", 1, 1, 2) {
    int ch = c.choose(128); int pre = c.choose(2); int ch2 = depth > 1 ? c.choose(128) : 'k';
    std::string s = (pre ? "xY" : "") + std::string(1, (char)ch) + (char)ch2, lo = s, up = s;
    for (auto &q : lo) if (q >= 'A' && q <= 'Z') q += 32; for (auto &q : up) if (q >= 'a' && q <= 'z') q -= 32;
    c.note([&] { return mc::show(s); }); c.state(mc::hashStr(s));
    String x(s); c.eq(S(x.toLowerCase()), lo, "toLowerCase()"); c.eq(S(x.toUpperCase()), up, "toUpperCase()");
    c.eq((bool)x.equalsIgnoreCase(String(up)), true, "equalsIgnoreCase(upper)"); c.eq((bool)String(lo).equalsIgnoreCase(String(up)), true, "lower equalsIgnoreCase upper");
}
SCENARIO(substrings, "subString and getStringFromIndex for every begin and end", 4, 6, 18) {
    int n = c.range(0, depth); std::string s; for (int i = 0; i < n; i++) s += i == 2 ? '\0' : (char)('a' + i);
    int b = c.range(-2, n + 2), e = c.range(-2, n + 2); String x(s);
    c.note([&] { return mc::show(s) + " [" + std::to_string(b) + ", " + std::to_string(e) + ")"; }); c.state(mc::hashStr(s, b * 64 + e));
    bool ok = b >= 0 && b <= e && e <= n;
    c.eq(S(x.subString(b, e)), ok ? s.substr(b, e - b) : "", "subString(begin, end)");
    c.eq(S(x.subString(b)), b >= 0 && b <= n ? s.substr(b) : "", "subString(begin)");
    auto g = attemptAs<StringIndexOutOfBoundsException>("StringIndexOutOfBoundsException", [&] { return S(x.getStringFromIndex(b)); });
    c.eq(g, b >= 0 && b < n ? ret(s.substr(b)) : thrown<std::string>("StringIndexOutOfBoundsException"), "getStringFromIndex(index)");
    c.eq(S(x), s, "the text afterwards");
}
SCENARIO(joining, "join, concat, + and += of up to four pieces", 1, 1, 2) {
    static const std::vector<std::string> P = {"", "a", std::string("\0", 1), "bc", "0123456789abcdef"};
    std::string d = c.pick(P); int n = c.range(1, depth > 1 ? 5 : 4); std::vector<std::string> p; for (int i = 0; i < n; i++) p.push_back(c.pick(P));
    std::string w; for (int i = 0; i < n; i++) { if (i) w += d; w += p[i]; }
    c.note([&] { return "join(" + mc::show(d) + ", " + mc::show(p) + ")"; }); c.state(mc::hashStr(w));
    String D(d); std::vector<String> q; for (auto &s : p) q.push_back(String(s));
    String r = n == 1 ? String::join(D, q[0]) : n == 2 ? String::join(D, q[0], q[1]) : n == 3 ? String::join(D, q[0], q[1], q[2]) : n == 4 ? String::join(D, q[0], q[1], q[2], q[3]) : String::join(D, q[0], q[1], q[2], q[3], q[4]);
    c.eq(S(r), w, "join");
    String acc; std::string aw; for (int i = 0; i < n; i++) { acc += q[i]; aw += p[i]; c.eq(S(acc), aw, "+="); c.eq(S(q[0].concat(q[i])), p[0] + p[i], "concat"); c.eq(S(q[i] + D), p[i] + d, "+"); }
    for (int i = 0; i < n; i++) c.eq(S(q[i]), p[i], "an operand afterwards");
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
