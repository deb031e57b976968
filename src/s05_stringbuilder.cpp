// S05: a StringBuilder behaves as an editable text under every history of edits.
#include "sb_common.hpp"
struct A {
    typedef StringBuilder type; static const bool cutsAtNul = true;
    static String sub(const StringBuilder &b, int s, int e) { return b.substring(s, e); }
    static void del(StringBuilder &b, int s, int e) { b.deleteRange(s, e); }
    static void extra(mc::Ctx &c, StringBuilder &b, std::string &m) {
        int n = (int)m.size(); Array<char> a; for (char ch : std::string("pqrst")) a.push(ch); Array<Character> ac; for (char ch : std::string("pqrst")) ac.push(Character(ch));
        switch (c.choose(9)) {
            case 0: c.note([] { return "append(array)"; }); b.append(a); m += "pqrst"; break;
            case 1: c.note([] { return "append(array of Character)"; }); b.append(ac); m += "pqrst"; break;
            case 2: { int o = SbTest<A>::range(c, -1, 5, 1), l = SbTest<A>::range(c, -1, 6, 3); bool ok = o >= 0 && l >= 0 && o + l <= 5; bool k = c.flip(); c.note([&] { return "append(array, " + std::to_string(o) + ", " + std::to_string(l) + ")"; });
                SbTest<A>::may(c, ok, m, [&] { if (k) b.append(a, o, l); else b.append(ac, o, l); }, [&](std::string &t) { t += std::string("pqrst").substr(o, l); }, "append(array, offset, length)"); } break;
            case 3: { int o = SbTest<A>::range(c, -1, 5, 1), l = SbTest<A>::range(c, -1, 6, 3), i = SbTest<A>::pos(c, m, true); bool ok = i >= 0 && i <= n && o >= 0 && l >= 0 && o + l <= 5; bool k = c.flip(); c.note([&] { return "insert(" + std::to_string(i) + ", array, " + std::to_string(o) + ", " + std::to_string(l) + ")"; });
                SbTest<A>::may(c, ok, m, [&] { if (k) b.insert(i, a, o, l); else b.insert(i, ac, o, l); }, [&](std::string &t) { t.insert(i, std::string("pqrst").substr(o, l)); }, "insert(index, array, offset, length)"); } break;
            case 4: { c.note([] { return "append of wrapper objects"; }); b.append(Boolean(true)); b.append(Character('w')); b.append(Integer(12)); b.append(Long(-34)); m += "truew12-34"; } break;
            case 5: { c.note([] { return "insert of wrapper objects at 0"; }); b.insert(0, Boolean(false)); b.insert(0, Character('w')); b.insert(0, Integer(12)); b.insert(0, Long(-34)); m = "-3412wfalse" + m; } break;
            case 6: { c.note([] { return "append(double), append(float)"; }); b.append(1.5); m += S(Double(1.5).toString()); b.append(2.5f); m += S(Float(2.5f).toString()); } break;
            case 7: { c.note([] { return "insert(0, double), insert(0, float)"; }); b.insert(0, 1.5); m = S(Double(1.5).toString()) + m; b.insert(0, 2.5f); m = S(Float(2.5f).toString()) + m; } break;
            default: { c.note([] { return "append(C string), append({...}), setCharAt(0, Character)"; }); b.append("lit"); m += "lit"; b.append({'{', '}'}); m += "{}"; b.insert(1, "L"); m.insert(1, "L"); b.setCharAt(0, Character('#')); m[0] = '#'; } break;
        }
    }
};
SCENARIO_NOLEAK(histories, "22 kinds of edits with boundary arguments, from five kinds of starting sequences", 1, 2, 3) { SbTest<A>::run(c, depth, false); }
SCENARIO(deep, "nine basic edits with valid arguments", 2, 3, 4) { SbTest<A>::run(c, depth, true); }

static std::string word(mc::Ctx &c, int lo, int hi) { int n = c.range(lo, hi); std::string s; for (int i = 0; i < n; i++) s += "ab"[c.choose(2)]; return s; }
SCENARIO(search, "indexOf and lastIndexOf of all patterns in all texts over {a,b}", 5, 9, 11) {
    std::string s = word(c, 0, depth), p = word(c, 0, std::min(depth - 2, 6)); int n = (int)s.size(), l = (int)p.size();
    c.note([&] { return "text " + mc::show(s) + ", pattern " + mc::show(p); }); c.state(mc::hashStr(s, mc::hashStr(p)));
    StringBuilder b((String(s)));
    c.eq(b.indexOf(String(p)), (int)(ssize_t)s.find(p), "indexOf(text)"); c.eq(b.lastIndexOf(String(p)), (int)(ssize_t)s.rfind(p), "lastIndexOf(text)");
    for (int f = -2; f <= n + 2; f++) {
        int w = (int)(ssize_t)s.find(p, std::max(f, 0)); if (p.empty() && f > n) w = n;
        c.eq(b.indexOf(String(p), f), w, "indexOf(text, from)");
        // the existing tests fix that an occurrence has to end at the start index or before it
        if (l > 0) { int lw = -1; for (int i = 0; i + l <= n; i++) if (i + l - 1 <= f && s.compare(i, l, p) == 0) lw = i; c.eq(b.lastIndexOf(String(p), f), lw, "lastIndexOf(text, from)"); }
    }
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
