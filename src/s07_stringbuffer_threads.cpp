// S07: a StringBuffer may be shared by threads: its methods act one at a time.
#include "mcsched.hpp"
#include "jn.hpp"
#include "library/Java/Lang/StringBuffer/StringBuffer.hpp"
using namespace jav;
using Java::Lang::StringBuffer; using Java::Lang::CharSequence;
typedef StringBuffer B;
typedef std::string R;
static R n(long v) { return std::to_string(v); }
struct Op { const char *name; bool writes; R (*f)(B &); };
// Written for a text of about six characters.
static const Op OPS[] = {
    {"append(String)", true, [](B &b) -> R { b.append(String("XYZ")); return ""; }},
    {"append(char)", true, [](B &b) -> R { b.append('q'); return ""; }},
    {"append(long text)", true, [](B &b) -> R { b.append(String("0123456789012345678901234567890123456789")); return ""; }},
    {"deletes(1, 4)", true, [](B &b) -> R { b.deletes(1, 4); return ""; }},
    {"deleteCharAt(4)", true, [](B &b) -> R { b.deleteCharAt(4); return ""; }},
    {"insert(2, String)", true, [](B &b) -> R { b.insert(2, String("uv")); return ""; }},
    {"insert(5, char)", true, [](B &b) -> R { b.insert(5, 'w'); return ""; }},
    {"replace(1, 5, String)", true, [](B &b) -> R { b.replace(1, 5, String("R")); return ""; }},
    {"reverse()", true, [](B &b) -> R { b.reverse(); return ""; }},
    {"setCharAt(4, 'S')", true, [](B &b) -> R { b.setCharAt(4, 'S'); return ""; }},
    {"setLength(3)", true, [](B &b) -> R { b.setLength(3); return ""; }},
    {"trimToSize()", true, [](B &b) -> R { b.trimToSize(); return ""; }},
    {"ensureCapacity(100)", true, [](B &b) -> R { b.ensureCapacity(100); return ""; }},
    {"operator=(other)", true, [](B &b) -> R { b = B(String("other")); return ""; }},
    {"append(int)", true, [](B &b) -> R { b.append(-12); return ""; }},
    {"append(long)", true, [](B &b) -> R { b.append(34L); return ""; }},
    {"append(float)", true, [](B &b) -> R { b.append(1.5f); return ""; }},
    {"append(double)", true, [](B &b) -> R { b.append(2.5); return ""; }},
    {"append(boolean)", true, [](B &b) -> R { b.append(true); return ""; }},
    {"append(C string)", true, [](B &b) -> R { b.append((string) "cs"); return ""; }},
    {"append(C string, 1, 2)", true, [](B &b) -> R { b.append((string) "abcd", 1, 2); return ""; }},
    {"append(CharSequence)", true, [](B &b) -> R { String s("seq"); b.append(static_cast<const CharSequence &>(s)); return ""; }},
    {"append(CharSequence, 1, 3)", true, [](B &b) -> R { String s("seq"); b.append(static_cast<const CharSequence &>(s), 1, 3); return ""; }},
    {"append(StringBuffer)", true, [](B &b) -> R { B o(String("sb")); b.append(o); return ""; }},
    {"appendCodePoint", true, [](B &b) -> R { b.appendCodePoint('c'); return ""; }},
    {"insert(1, boolean)", true, [](B &b) -> R { b.insert(1, false); return ""; }},
    {"insert(1, int)", true, [](B &b) -> R { b.insert(1, 5); return ""; }},
    {"insert(1, long)", true, [](B &b) -> R { b.insert(1, 6L); return ""; }},
    {"insert(1, float)", true, [](B &b) -> R { b.insert(1, 0.5f); return ""; }},
    {"insert(1, double)", true, [](B &b) -> R { b.insert(1, 0.25); return ""; }},
    {"insert(3, CharSequence)", true, [](B &b) -> R { String s("seq"); b.insert(3, static_cast<const CharSequence &>(s)); return ""; }},
    {"insert(3, CharSequence, 1, 3)", true, [](B &b) -> R { String s("seq"); b.insert(3, static_cast<const CharSequence &>(s), 1, 3); return ""; }},
    {"insert(3, String, 1, 2)", true, [](B &b) -> R { b.insert(3, String("ijkl"), 1, 2); return ""; }},
    {"length()", false, [](B &b) -> R { return n(b.length()); }},
    {"toString()", false, [](B &b) -> R { return S(b.toString()); }},
    {"getValue()", false, [](B &b) -> R { return S(b.getValue()); }},
    {"charAt(4)", false, [](B &b) -> R { return n(b.charAt(4)); }},
    {"codePointAt(3)", false, [](B &b) -> R { return n(b.codePointAt(3)); }},
    {"codePointBefore(5)", false, [](B &b) -> R { return n(b.codePointBefore(5)); }},
    {"codePointCount(0, 5)", false, [](B &b) -> R { return n(b.codePointCount(0, 5)); }},
    {"offsetByCodePoints(0, 5)", false, [](B &b) -> R { return n(b.offsetByCodePoints(0, 5)); }},
    {"capacity() >= length", false, [](B &b) -> R { return b.capacity() >= 3 ? "y" : "n"; }},
    {"indexOf(String)", false, [](B &b) -> R { return n(b.indexOf(String("de"))); }},
    {"indexOf(String, 1)", false, [](B &b) -> R { return n(b.indexOf(String("f"), 1)); }},
    {"lastIndexOf(String)", false, [](B &b) -> R { return n(b.lastIndexOf(String("b"))); }},
    {"lastIndexOf(String, 4)", false, [](B &b) -> R { return n(b.lastIndexOf(String("b"), 4)); }},
    {"subString(2)", false, [](B &b) -> R { return S(b.subString(2)); }},
    {"subString(1, 5)", false, [](B &b) -> R { return S(b.subString(1, 5)); }},
    {"copy", false, [](B &b) -> R { B o(b); return S(o.toString()); }},
    // a buffer that is the source of another's edit may be read in several steps: only its safety is checked
    {"append to another", false, [](B &b) -> R { B o(String("o")); try { o.append(static_cast<const StringBuffer &>(b)); } catch (Throwable &) {} return ""; }},
    {"append as CharSequence to another", false, [](B &b) -> R { B o(String("o")); try { o.append(static_cast<const CharSequence &>(b)); } catch (Throwable &) {} return ""; }},
    {"append part to another", false, [](B &b) -> R { B o(String("o")); try { o.append(static_cast<const CharSequence &>(b), 1, 3); } catch (Throwable &) {} return ""; }},
    {"insert into another", false, [](B &b) -> R { B o(String("o")); try { o.insert(0, static_cast<const CharSequence &>(b)); } catch (Throwable &) {} return ""; }},
    {"made into another", false, [](B &b) -> R { try { B o(static_cast<const CharSequence &>(b)); } catch (Throwable &) {} return ""; }},
    {"assigned to another", false, [](B &b) -> R { B o(String("o")); o = b; return S(o.toString()); }},
};
const int NOPS = sizeof OPS / sizeof *OPS, NCORE = 13;
static R call(const Op &o, B &b) { try { return o.f(b); } catch (Throwable &) { return "!exception"; } catch (std::exception &) { return "!exception"; } }

// The calls, in an order that one after the other gives the same results, on a buffer of one thread.
struct Call { const Op *op; R got; };
static bool explain(const std::vector<sched::Span> &span, const std::vector<Call> &calls, const R &start, const R &end) {
    int left = (int)calls.size(); (void)left;
    // the state: the text, and how many calls are done
    struct M { R t; int k; bool operator<(const M &o) const { return std::tie(t, k) < std::tie(o.t, o.k); } };
    return sched::linearizable(span, M{start, 0}, [&](M &m, int i) {
        B b(String(m.t)); R r = call(*calls[i].op, b);
        if (r != calls[i].got) return false;
        m.t = S(b.toString()); m.k++;
        return m.k < (int)calls.size() || m.t == end;
    });
}
static void go(mc::Ctx &c, int bound, const std::vector<std::vector<const Op *>> &plan) {
    c.note([&] { std::string s = "buffer \"abcdef\"; "; for (auto &t : plan) { s += "thread:"; for (auto *o : t) s += std::string(" ") + o->name; s += "; "; } return s; });
    R last; std::vector<Call> calls; std::vector<sched::Span> span;
    for (auto &t : plan) for (auto *o : t) { calls.push_back({o, R()}); span.push_back({}); }
    sched::run(c, bound, [&] {
        B *b = new B(String("abcdef")); int at = 0;
        for (size_t t = 0; t < plan.size(); t++) {
            int first = at; at += (int)plan[t].size();
            sched::spawn([&, b, first, t] { for (size_t k = 0; k < plan[t].size(); k++) { if (k) sched::point(); auto &s = span[first + k]; s.inv = sched::tick(); R r = call(*plan[t][k], *b); s.res = sched::tick(); { sched::Quiet q; calls[first + k].got = r; } } });
        }
        sched::joinAll();
        last = S(b->toString()); delete b;
    });
    c.outcome(mc::hashStr(last));
    c.checkf(explain(span, calls, "abcdef", last), [&] { std::string s = "no order of the calls explains the results:"; for (auto &k : calls) s += " " + std::string(k.op->name) + " = " + mc::show(k.got) + ","; return s + " and finally " + mc::show(last); });
}
SCENARIO(pairs, "every pair of 55 operations in two threads", 0, 2, 3) {
    int i = c.choose(NOPS), j = i + c.choose(NOPS - i);
    if (!OPS[i].writes && !OPS[j].writes) throw mc::Skip();
    go(c, depth, {{&OPS[i]}, {&OPS[j]}});
}
SCENARIO(triples, "one operation against two of another thread", 0, 1, 2) {
    int i = c.choose(NCORE), j = c.choose(NCORE), k = c.choose(c.thorough ? NCORE : 6);
    go(c, depth, {{&OPS[i]}, {&OPS[j], &OPS[k]}});
}
SCENARIO(three, "three threads with one operation each", 0, 1, 2) {
    int i = c.choose(8), j = i + c.choose(8 - i), k = j + c.choose(8 - j);
    go(c, depth, {{&OPS[i]}, {&OPS[j]}, {&OPS[k]}});
}
// Two buffers that refer to each other.
SCENARIO(crossing, "two threads use two buffers in opposite orders", 0, 2, 3) {
    int i = c.choose(5), j = c.choose(5);
    static const char *const NAMES[] = {"append(other)", "append(other as CharSequence)", "insert(0, other)", "= other", "append(other, 0, 2)"};
    auto op = [](int k, B &x, const B &y) { switch (k) { case 0: x.append(y); break; case 1: x.append(static_cast<const CharSequence &>(y)); break; case 2: x.insert(0, static_cast<const CharSequence &>(y)); break; case 3: x = y; break; default: x.append(static_cast<const CharSequence &>(y), 0, 2); } };
    c.note([&] { return std::string("a = \"ab\", b = \"cd\"; thread: a.") + NAMES[i] + "; thread: b." + NAMES[j]; });
    R ea, eb;
    sched::run(c, depth, [&] {
        B *a = new B(String("ab")), *b = new B(String("cd"));
        sched::spawn([=] { op(i, *a, *b); }); sched::spawn([=] { op(j, *b, *a); }); sched::joinAll();
        ea = S(a->toString()); eb = S(b->toString()); delete a; delete b;
    });
    auto m = [](int k, const R &x, const R &y) -> R { return k == 3 ? y : k == 2 ? y + x : k == 4 ? x + y.substr(0, 2) : x + y; };
    c.outcome(mc::hashStr(ea + "|" + eb));
    // the other's text is read at one moment, and used at another
    R a1 = m(i, "ab", "cd"), b1 = m(j, "cd", a1), b2 = m(j, "cd", "ab"), a2 = m(i, "ab", b2);
    c.checkf((ea == a1 && (eb == b1 || eb == b2)) || (ea == a2 && eb == b2), [&] { return "a = " + ea + ", b = " + eb; });
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
