// S06: a StringBuffer used by one thread behaves as an editable text under every history of edits.
#include "sb_common.hpp"
struct A {
    typedef StringBuffer type; static const bool cutsAtNul = false;
    static String sub(const StringBuffer &b, int s, int e) { return b.subString(s, e); }
    static void del(StringBuffer &b, int s, int e) { b.deletes(s, e); }
    static void extra(mc::Ctx &c, StringBuffer &b, std::string &m) {
        int n = (int)m.size();
        switch (c.choose(8)) {
            case 0: { int o = SbTest<A>::range(c, -1, 5, 1), l = SbTest<A>::range(c, -1, 6, 3); bool ok = o >= 0 && l >= 0 && o + l <= 5; c.note([&] { return "append(C string, " + std::to_string(o) + ", " + std::to_string(l) + ")"; });
                SbTest<A>::may(c, ok, m, [&] { b.append((string) "pqrst", o, l); }, [&](std::string &t) { t += std::string("pqrst").substr(o, l); }, "append(text, offset, length)"); } break;
            case 1: { int o = SbTest<A>::range(c, -1, 5, 1), l = SbTest<A>::range(c, -1, 6, 3), i = SbTest<A>::pos(c, m, true); bool ok = i >= 0 && i <= n && o >= 0 && l >= 0 && o + l <= 5; c.note([&] { return "insert(" + std::to_string(i) + ", text, " + std::to_string(o) + ", " + std::to_string(l) + ")"; });
                SbTest<A>::may(c, ok, m, [&] { b.insert(i, String("pqrst"), o, l); }, [&](std::string &t) { t.insert(i, std::string("pqrst").substr(o, l)); }, "insert(index, text, offset, length)"); } break;
            case 2: c.note([] { return "append(NUL), insert(0, NUL)"; }); b.append('\0'); m += '\0'; b.insert(0, '\0'); m.insert(0, 1, '\0'); break;
            case 3: c.note([] { return "append(itself)"; }); b.append(b); m += m; break;
            case 4: { c.note([] { return "append(another buffer)"; }); StringBuffer o(String("other")); b.append(o); m += "other"; c.eq(S(o.toString()), std::string("other"), "the other buffer"); } break;
            case 5: { c.note([] { return "append(double), append(float)"; }); b.append(1.5); m += S(String::valueOf(1.5)); b.append(2.5f); m += S(String::valueOf(2.5f)); } break;
            case 6: { c.note([] { return "insert(0, double), insert(0, float)"; }); b.insert(0, 1.5); m = S(String::valueOf(1.5)) + m; b.insert(0, 2.5f); m = S(String::valueOf(2.5f)) + m; } break;
            default: { c.note([] { return "append(C string), appendCodePoint('P'), insert(0, itself)"; }); b.append((string) "lit"); m += "lit"; b.appendCodePoint('P'); m += 'P'; b.insert(0, (const CharSequence &)b); m = m + m; } break;
        }
    }
};
SCENARIO_NOLEAK(histories, "22 kinds of edits with boundary arguments, from five kinds of starting sequences", 1, 2, 3) { SbTest<A>::run(c, depth, false); }
SCENARIO(deep, "nine basic edits with valid arguments", 2, 3, 4) { SbTest<A>::run(c, depth, true); }
static std::string word(mc::Ctx &c, int lo, int hi) { int n = c.range(lo, hi); std::string s; for (int i = 0; i < n; i++) s += "ab"[c.choose(2)]; return s; }
SCENARIO(search, "indexOf and lastIndexOf of all patterns in all texts over {a,b}", 5, 9, 11) {
    std::string s = word(c, 0, depth), p = word(c, 1, std::min(depth - 2, 6)); int n = (int)s.size();
    c.note([&] { return "text " + mc::show(s) + ", pattern " + mc::show(p); }); c.state(mc::hashStr(s, mc::hashStr(p)));
    StringBuffer b((String(s)));
    c.eq(b.indexOf(String(p)), (int)(ssize_t)s.find(p), "indexOf(text)"); c.eq(b.lastIndexOf(String(p)), (int)(ssize_t)s.rfind(p), "lastIndexOf(text)");
    for (int f = -2; f <= n + 2; f++) {
        c.eq(b.indexOf(String(p), f), (int)(ssize_t)s.find(p, std::max(f, 0)), "indexOf(text, from)");
        c.eq(b.lastIndexOf(String(p), f), f < 0 ? -1 : (int)(ssize_t)s.rfind(p, f), "lastIndexOf(text, from)");
    }
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
