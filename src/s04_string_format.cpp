// S04: String.format and String.valueOf produce exactly the text that the C formatting rules define, of every
// length, and a format with fewer arguments than directives is refused.
#include "jn.hpp"
using namespace jav;
template<class T> static std::string cfmt(const std::string &f, T v) {
    int n = snprintf(nullptr, 0, f.c_str(), v); std::string s(n + 1, 0); snprintf(&s[0], n + 1, f.c_str(), v); s.resize(n); return s;
}
static const std::vector<std::string> &flags() { static const std::vector<std::string> v = {"", "-", "+", "0", " ", "#", "-+", "+0"}; return v; }

static std::string spec(mc::Ctx &c, bool precision, int depth) {
    std::string s = c.pick(flags());
    static const std::vector<std::string> W = {"", "1", "5", "40", "126", "127", "128", "129", "200"};
    static const std::vector<std::string> P = {"", ".0", ".1", ".3", ".20", ".125", ".130"};
    s += W[c.choose(depth > 1 ? 9 : 9)]; if (precision) s += P[c.choose(depth > 1 ? 7 : 5)];
    return s;
}
template<class T> static void one(mc::Ctx &c, const std::string &dir, T v, const std::string &pre, const std::string &post) {
    std::string f = pre + dir + post, want = pre + cfmt(dir, v) + post;
    c.note([&] { return "format(" + mc::show(f) + ", " + mc::show(v) + ")"; }); c.state(mc::hashStr(want, mc::hashStr(f)));
    c.eq(S(String::format(String(f), v)), want, "format");
}
static const std::vector<std::string> &ctxs() { static const std::vector<std::string> v = {"", "x", "100%% ", " D", "a longer literal prefix, thirty-four"}; return v; }
static std::string unpct(const std::string &s) { std::string o; for (size_t i = 0; i < s.size(); i++) { o += s[i]; if (s[i] == '%' && i + 1 < s.size() && s[i + 1] == '%') i++; } return o; }

SCENARIO(integers, "every flag, width and precision x conversions d i u o x X x boundary values of int, long, short", 1, 1, 2) {
    static const std::vector<std::string> CV = {"d", "i", "u", "o", "x", "X"};
    std::string sp = spec(c, true, depth); const std::string &cv = c.pick(CV);
    static const std::vector<int> V = {0, 1, -1, 42, INT_MAX, INT_MIN};
    int kind = c.choose(3);
    if (kind == 0) { int v = c.pick(V); one(c, "%" + sp + cv, v, "", ""); one(c, "%" + sp + cv, Integer(v).intValue(), "<", ">"); c.eq(S(String::format(String("%" + sp + cv), Integer(v))), cfmt("%" + sp + cv, v), "format(Integer)"); }
    else if (kind == 1) { static const std::vector<long> L = {0, -7, LONG_MAX, LONG_MIN}; long v = c.pick(L); one(c, "%" + sp + "l" + cv, v, "", ""); one(c, "%" + sp + "ll" + cv, (long long)v, "[", "]"); c.eq(S(String::format(String("%" + sp + "l" + cv), Long(v))), cfmt("%" + sp + "l" + cv, v), "format(Long)"); }
    else { static const std::vector<short> L = {0, -7, SHRT_MAX, SHRT_MIN}; short v = c.pick(L); one(c, "%" + sp + cv, v, "", ""); one(c, "%" + sp + cv, (unsigned short)v, "", "!"); c.eq(S(String::format(String("%" + sp + cv), Short(v))), cfmt("%" + sp + cv, v), "format(Short)"); }
}
SCENARIO(unsigneds, "unsigned int and unsigned long", 1, 1, 2) {
    std::string sp = spec(c, true, depth); static const std::vector<unsigned> V = {0u, 1u, UINT_MAX}; unsigned v = c.pick(V); bool l = c.flip();
    if (l) one(c, "%" + sp + "lu", (unsigned long)v * 4294967297ul, "", ""); else one(c, "%" + sp + "u", v, "", "");
}
SCENARIO(doubles, "every flag, width and precision x conversions e f g a x boundary values of double and float", 1, 1, 2) {
    static const std::vector<std::string> CV = {"f", "e", "g", "a", "F", "E", "G", "A"};
    std::string sp = spec(c, true, depth); const std::string &cv = CV[c.choose(depth > 1 ? 8 : 4)];
    static const std::vector<double> V = {0.0, -0.0, 1.5, -123456.789, 1e300, 5e-324, INFINITY};
    double v = c.pick(V); one(c, "%" + sp + cv, v, "", ""); one(c, "%" + sp + cv, (float)v, "(", ")");
    c.eq(S(String::format(String("%" + sp + cv), Double(v))), cfmt("%" + sp + cv, v), "format(Double)");
    c.eq(S(String::format(String("%" + sp + cv), Float((float)v))), cfmt("%" + sp + cv, (float)v), "format(Float)");
}
SCENARIO(texts, "%s with argument lengths around the formatter's buffer sizes", 1, 1, 2) {
    static const std::vector<int> LEN = {0, 1, 126, 127, 128, 129, 255, 256, 257, 1000};
    int len = depth > 1 ? c.range(0, 300) : c.pick(LEN); static const std::vector<std::string> SP = {"", "5", "-5", "127", "128", "129", "-128", ".0", ".3", ".128", "200", "-200.10"};
    std::string v; for (int i = 0; i < len; i++) v += (char)('a' + i % 26);
    std::string sp = c.pick(SP), pre = c.pick(ctxs()), post = c.pick(ctxs()), dir = "%" + sp + "s";
    std::string want = unpct(pre) + cfmt(dir, v.c_str()) + post;
    if (post.find('%') != std::string::npos) want = unpct(pre) + cfmt(dir, v.c_str()) + unpct(post);
    c.note([&] { return "format(" + mc::show(pre + dir + post) + ", text of " + std::to_string(len) + ")"; }); c.state(mc::hashStr(want));
    String f(pre + dir + post);
    c.eq(S(String::format(f, (const_string)v.c_str())), want, "format(const char *)");
    c.eq(S(String::format(f, (string)v.c_str())), want, "format(char *)");
    c.eq(S(String::format(f, String(v))), want, "format(String)");
}
// formats of several directives and literals, with the right number of arguments and with one too few
static void multi(mc::Ctx &c, int n, bool missing) {
    static const std::vector<std::string> LIT = {"", "a", "%%", " 100%% ", "D%%%%"};
    std::string f, want; int nd = 0; int kinds[4]; std::string dirs[4];
    f = LIT[c.choose(5)]; want = unpct(f);
    for (int i = 0; i < n; i++) {
        static const std::vector<std::string> D = {"%d", "%s", "%5d", "%-3s", "%x", "%05d"}; int k = c.choose(missing ? 3 : 6); dirs[i] = D[k]; kinds[i] = (k == 1 || k == 3); nd++;
        const std::string &l = LIT[c.choose(missing ? 3 : 5)]; f += dirs[i] + l;
        want += (kinds[i] ? cfmt(dirs[i], "txt") : cfmt(dirs[i], 40 + i)) + unpct(l);
    }
    // the arguments have to have static types: strings and integers as the directives ask
    int mask = 0; for (int i = 0; i < n; i++) mask |= kinds[i] << i;
    c.note([&] { return "format(" + mc::show(f) + ") with " + std::to_string(missing ? n - 1 : n) + " arguments"; }); c.state(mc::hashStr(f));
    String F(f); String T("txt");
    auto r = attempt([&]() -> std::string {
        int m = missing ? n - 1 : n;
        if (m == 0) return S(String::format(F));
        if (m == 1) return S((mask & 1) ? String::format(F, T) : String::format(F, 40));
        if (m == 2) switch (mask & 3) { case 0: return S(String::format(F, 40, 41)); case 1: return S(String::format(F, T, 41)); case 2: return S(String::format(F, 40, T)); default: return S(String::format(F, T, T)); }
        switch (mask & 7) {
            case 0: return S(String::format(F, 40, 41, 42)); case 1: return S(String::format(F, T, 41, 42)); case 2: return S(String::format(F, 40, T, 42)); case 3: return S(String::format(F, T, T, 42));
            case 4: return S(String::format(F, 40, 41, T)); case 5: return S(String::format(F, T, 41, T)); case 6: return S(String::format(F, 40, T, T)); default: return S(String::format(F, T, T, T)); }
    });
    c.eq(r, missing ? thrown<std::string>() : ret(want), "format");
}
SCENARIO_NOLEAK(several, "formats of up to three directives between literals and %% signs", 0, 2, 3) { multi(c, depth, false); }
SCENARIO_NOLEAK(missing, "formats with one argument too few are refused with an exception", 1, 3, 3) { multi(c, depth, true); }

SCENARIO(plainFormat, "formats without arguments over {a, %, D, 5, d}: literal text is copied, %% is one %, a directive is refused", 4, 6, 7) {
    int n = c.range(0, depth); std::string f; for (int i = 0; i < n; i++) f += "a%D5"[c.choose(4)];
    // well-formed part only: every % is followed by another %, or by D (which is no directive)
    std::string want; for (size_t i = 0; i < f.size(); i++) { if (f[i] == '%') { if (i + 1 < f.size() && f[i + 1] == '%') { want += '%'; i++; } else throw mc::Skip(); } else want += f[i]; }
    c.note([&] { return "format(" + mc::show(f) + ")"; }); c.state(mc::hashStr(f));
    c.eq(S(String::format(String(f))), want, "format");
    c.eq(S(String::format(String(f), 7)), want, "format with a surplus argument");
}
SCENARIO(valueOfs, "valueOf of boundary values and powers of two and ten of every primitive type", 1, 1, 1) {
    int kind = c.choose(8);
    if (kind == 0) { bool b = c.flip(); c.eq(S(String::valueOf((boolean)b)), std::string(b ? "true" : "false"), "valueOf(boolean)"); }
    else if (kind == 1) { int ch = c.range(1, 255); c.note([&] { return "char " + std::to_string(ch); }); c.eq(S(String::valueOf((char)ch)), std::string(1, (char)ch), "valueOf(char)"); }
    else if (kind == 2) { int v = c.range(-32768, 32767); c.eq(S(String::valueOf((short)v)), std::to_string(v), "valueOf(short)"); c.state(mc::mix(1, v)); }
    else if (kind == 3 || kind == 4 || kind == 5) {
        int e = c.choose(64), d = c.range(-2, 2); bool neg = c.flip(), ten = c.flip(); unsigned long long m = 1; for (int i = 0; i < (ten ? e % 19 : e % 63); i++) m *= ten ? 10 : 2;
        long long v = (long long)m + d; if (neg) v = -v; if (kind == 3 && e == 0) v = neg ? LLONG_MIN : LLONG_MAX;
        c.note([&] { return std::to_string(v); }); c.state(mc::mix(kind, v));
        if (kind == 3) c.eq(S(String::valueOf((long)v)), std::to_string(v), "valueOf(long)");
        else if (kind == 4) c.eq(S(String::valueOf((long long)v)), std::to_string(v), "valueOf(long long)");
        else c.eq(S(String::valueOf((int)v)), std::to_string((int)v), "valueOf(int)");
    } else {
        int e = c.range(-320, 308), k = c.choose(4); bool neg = c.flip(); double v = (neg ? -1 : 1) * (1 + k * 0.3751) * pow(10, e);
        if (k == 3 && e == 0) v = neg ? -0.0 : 0.0; if (k == 3 && e == 1) v = neg ? -DBL_MAX : DBL_MAX; if (k == 3 && e == 2) v = neg ? -INFINITY : INFINITY;
        c.note([&] { return mc::show(v); }); c.state(mc::hashBytes(&v, 8));
        if (kind == 6) c.eq(S(String::valueOf(v)), cfmt("%.15f", v), "valueOf(double)");
        else c.eq(S(String::valueOf((float)v)), cfmt("%g", (float)v), "valueOf(float)");
    }
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
