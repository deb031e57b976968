// Histories of operations on a mutable character sequence, against a std::string.
// T is an adapter that gives StringBuilder and StringBuffer one spelling.
#pragma once
#include "jn.hpp"
using namespace jav;

struct Seq : Java::Lang::CharSequence {
    std::string s; Seq(const std::string &x) : s(x) {}
    String toString() const override { return String(s); }
    char charAt(int i) const override { return s.at(i); }
    int length() const override { return (int)s.size(); }
};

template<class T> struct SbTest {
    typedef typename T::type B;
    static const std::vector<std::string> &pieces() { static const std::vector<std::string> v = {"", "x", "ab", "0123456789abcdefghi"}; return v; }
    static std::string visible(const std::string &m) { return T::cutsAtNul ? std::string(m.c_str()) : m; }
    // Everything a user can see.
    static void view(mc::Ctx &c, const B &b, const std::string &m) {
        c.eq(b.length(), (int)m.size(), "length()");
        c.check(b.capacity() >= (int)m.size(), "capacity() is smaller than length()");
        c.eq(S(b.toString()), visible(m), "toString()");
        std::string at; for (int i = 0; i < b.length(); i++) at += b.charAt(i);
        c.eq(at, m, "charAt()");
        for (int i = 0; i < (int)m.size(); i += 3) c.eq((int)(char)b.codePointAt(i), (int)m[i], "codePointAt()");
        for (int i : {-1, (int)m.size()}) {
            c.eq(attemptAs<IndexOutOfBoundsException>("IndexOutOfBoundsException", [&] { return b.charAt(i); }), thrown<char>("IndexOutOfBoundsException"), "charAt(out of range)");
        }
        c.eq(S(String(b)), visible(m), "String(sequence)");
    }
    static void slow(mc::Ctx &c, B &b, const std::string &m) {
        int n = (int)m.size();
        for (int s : {-1, 0, n / 2, n, n + 1}) for (int e : {-1, 0, n / 2, n, n + 1}) {
            bool ok = s >= 0 && s <= e && e <= n;
            c.eq(attemptAs<StringIndexOutOfBoundsException>("StringIndexOutOfBoundsException", [&] { return S(T::sub(b, s, e)); }), ok ? ret(m.substr(s, e - s)) : thrown<std::string>("StringIndexOutOfBoundsException"), "substring(start, end)");
            c.eq(attemptAs<IndexOutOfBoundsException>("IndexOutOfBoundsException", [&] { return b.codePointCount(s, e); }), ok ? ret(e - s) : thrown<int>("IndexOutOfBoundsException"), "codePointCount(start, end)");
        }
        for (const char *p : {"x", "ab", "ba", "zz", "9abc"}) {
            c.eq(b.indexOf(String(p)), (int)(ssize_t)visible(m).find(p), "indexOf(text)");
            c.eq(b.lastIndexOf(String(p)), (int)(ssize_t)visible(m).rfind(p), "lastIndexOf(text)");
            for (int from : {0, 1, n / 2}) if (from <= n) c.eq(b.indexOf(String(p), from), (int)(ssize_t)visible(m).find(p, from), "indexOf(text, from)");
        }
        if (n > 0) c.eq((int)(char)b.codePointBefore(n), (int)m[n - 1], "codePointBefore(length)");
    }
    // Before the last step of a history the quick tier leaves out refused calls and some arguments.
    static bool &full() { static bool f = true; return f; }
    static const std::string &piece(mc::Ctx &c) { return full() ? c.pick(pieces()) : pieces()[c.flip() ? 1 : 3]; }
    static int range(mc::Ctx &c, int lo, int hi, int few) { return full() ? c.range(lo, hi) : few; }
    static int pos(mc::Ctx &c, const std::string &m, bool invalid) {     // a few positions, always including the boundaries
        if (!full()) { int n = (int)m.size(); return n < 2 ? c.choose(n + 1) : c.choose(3) * n / 2; }
        int n = (int)m.size(); std::vector<int> v = {0}; if (n > 1) v.push_back(n / 2); if (n > 0) v.push_back(n); if (n > 2) v.push_back(n - 1);
        if (invalid) { v.push_back(-1); v.push_back(n + 1); }
        return c.pick(v);
    }
    // A call which may be refused.
    template<class F, class G> static void may(mc::Ctx &c, bool ok, std::string &m, F call, G effect, const char *what) {
        auto r = attemptAs<IndexOutOfBoundsException>("IndexOutOfBoundsException", [&] { call(); return 0; });
        c.eq(r, ok ? ret(0) : thrown<int>("IndexOutOfBoundsException"), what);
        if (ok) effect(m);
    }
    static void step(mc::Ctx &c, B &b, std::string &m, B &other, std::string &om, bool small) {
        int n = (int)m.size(); int op = c.choose(small ? 9 : 22);
        switch (op) {
            case 0: { const std::string &p = piece(c); c.note([&] { return "append(String " + mc::show(p) + ")"; }); b.append(String(p)); m += p; } break;
            case 1: { c.note([] { return "append('c')"; }); b.append('c'); m += 'c'; } break;
            case 2: { int i = pos(c, m, !small); const std::string &p = piece(c); c.note([&] { return "insert(" + std::to_string(i) + ", " + mc::show(p) + ")"; });
                may(c, i >= 0 && i <= n, m, [&] { b.insert(i, String(p)); }, [&](std::string &t) { t.insert(i, p); }, "insert(offset, String)"); } break;
            case 3: { int s = pos(c, m, !small), e = pos(c, m, !small); c.note([&] { return "delete(" + std::to_string(s) + ", " + std::to_string(e) + ")"; });
                int ee = std::min(e, n); may(c, s >= 0 && s <= n && s <= ee && e >= 0, m, [&] { T::del(b, s, e); }, [&](std::string &t) { t.erase(s, ee - s); }, "delete(start, end)"); } break;
            case 4: { int s = pos(c, m, !small), e = pos(c, m, !small); const std::string &p = piece(c); int ee = std::min(e, n);
                if (s > n && e > n) throw mc::Skip();
                c.note([&] { return "replace(" + std::to_string(s) + ", " + std::to_string(e) + ", " + mc::show(p) + ")"; });
                may(c, s >= 0 && s <= n && s <= e, m, [&] { b.replace(s, e, String(p)); }, [&](std::string &t) { t.replace(s, ee - s, p); }, "replace(start, end, text)"); } break;
            case 5: { c.note([] { return "reverse()"; }); b.reverse(); std::reverse(m.begin(), m.end()); } break;
            case 6: { static const std::vector<int> L = {0, 1, 3, 16, 17, 40, -1}; int l = small ? L[c.choose(3)] : c.pick(L); c.note([&] { return "setLength(" + std::to_string(l) + ")"; });
                may(c, l >= 0, m, [&] { b.setLength(l); }, [&](std::string &t) { t.resize(l, '\0'); }, "setLength(length)"); } break;
            case 7: { c.note([] { return "trimToSize()"; }); b.trimToSize(); c.eq(b.capacity(), n, "capacity() after trimToSize()"); } break;
            case 8: { int i = pos(c, m, !small); c.note([&] { return "deleteCharAt(" + std::to_string(i) + ")"; });
                may(c, i >= 0 && i < n, m, [&] { b.deleteCharAt(i); }, [&](std::string &t) { t.erase(i, 1); }, "deleteCharAt(index)"); } break;
            case 9: { int i = pos(c, m, true); c.note([&] { return "setCharAt(" + std::to_string(i) + ", 's')"; });
                may(c, i >= 0 && i < n, m, [&] { b.setCharAt(i, 's'); }, [&](std::string &t) { t[i] = 's'; }, "setCharAt(index, char)"); } break;
            case 10: { static const std::vector<int> L = {-5, 0, 1, 17, 33, 100}; int l = c.pick(L); int before = b.capacity(); c.note([&] { return "ensureCapacity(" + std::to_string(l) + ")"; }); b.ensureCapacity(l); c.check(b.capacity() >= l && b.capacity() >= before, "ensureCapacity() left a smaller capacity than asked for"); } break;
            case 11: { static const std::vector<int> L = {0, -1, INT_MAX, INT_MIN}; int v = c.pick(L); bool in = c.flip(); c.note([&] { return std::string(in ? "insert(0, int " : "append(int ") + std::to_string(v) + ")"; }); if (in) { b.insert(0, v); m.insert(0, std::to_string(v)); } else { b.append(v); m += std::to_string(v); } } break;
            case 12: { static const std::vector<long> L = {7, LONG_MAX, LONG_MIN}; long v = c.pick(L); bool in = c.flip(); c.note([&] { return std::string(in ? "insert(0, long " : "append(long ") + std::to_string(v) + ")"; }); if (in) { b.insert(0, v); m.insert(0, std::to_string(v)); } else { b.append(v); m += std::to_string(v); } } break;
            case 13: { bool v = c.flip(), in = c.flip(); c.note([&] { return std::string(in ? "insert(0, boolean " : "append(boolean ") + mc::show(v) + ")"; }); if (in) { b.insert(0, (boolean)v); m.insert(0, mc::show(v)); } else { b.append((boolean)v); m += mc::show(v); } } break;
            case 14: { Seq q("abcdef"); int s = c.range(-1, 1) * 3, e = 3 + c.choose(3) * 2; bool ok = s >= 0 && e <= 6; c.note([&] { return "append(sequence, " + std::to_string(s) + ", " + std::to_string(e) + ")"; });
                may(c, ok, m, [&] { b.append((const CharSequence &)q, s, e); }, [&](std::string &t) { t += q.s.substr(s, e - s); }, "append(sequence, start, end)"); } break;
            case 15: { Seq q("abcdef"); int i = pos(c, m, true), s = c.range(-1, 1) * 3, e = 3 + c.choose(3) * 2; bool ok = i >= 0 && i <= n && s >= 0 && e <= 6; c.note([&] { return "insert(" + std::to_string(i) + ", sequence, " + std::to_string(s) + ", " + std::to_string(e) + ")"; });
                may(c, ok, m, [&] { b.insert(i, (const CharSequence &)q, s, e); }, [&](std::string &t) { t.insert(i, q.s.substr(s, e - s)); }, "insert(offset, sequence, start, end)"); } break;
            case 16: { int i = pos(c, m, true); c.note([&] { return "insert(" + std::to_string(i) + ", 'i')"; }); may(c, i >= 0 && i <= n, m, [&] { b.insert(i, 'i'); }, [&](std::string &t) { t.insert(i, 1, 'i'); }, "insert(offset, char)"); } break;
            case 17: { Seq q("<Q>"); bool in = c.flip(); c.note([&] { return in ? "insert(0, sequence)" : "append(sequence)"; }); if (in) { b.insert(0, (const CharSequence &)q); m.insert(0, "<Q>"); } else { b.append((const CharSequence &)q); m += "<Q>"; } } break;
            case 18: { c.note([] { return "other = sequence; sequence += 'k'"; }); other = b; om = m; b.append('k'); m += 'k'; } break;
            case 19: { c.note([] { return "sequence = other"; }); b = other; m = om; } break;
            case 20: { c.note([] { return "copy constructed, modified, dropped; self-assignment"; }); { B t(b); c.eq(t.length(), n, "length() of a copy"); c.eq(S(t.toString()), visible(m), "a copy"); t.append('t'); t.reverse(); } B &r = b; b = r; } break;
            default: T::extra(c, b, m); break;
        }
    }
    static void run(mc::Ctx &c, int depth, bool small) {
        int start = c.choose(small ? 3 : 5); std::string m, om;
        B b = start == 0 ? B() : start == 1 ? B(0) : start == 2 ? B(String("abc")) : start == 3 ? B(1) : B((const CharSequence &)Seq("sequence"));
        c.note([&] { static const char *n[] = {"empty", "capacity 0", "\"abc\"", "capacity 1", "from a sequence"}; return std::string("start: ") + n[start]; });
        if (start == 2) m = "abc"; if (start == 4) m = "sequence";
        B other(String("other")); om = "other";
        for (int i = 0; i < depth; i++) {
            full() = i == depth - 1 || c.thorough;
            step(c, b, m, other, om, small);
            c.state(mc::hashStr(m, mc::hashStr(om)));
            view(c, b, m);
        }
        view(c, other, om); slow(c, b, m);
    }
};
