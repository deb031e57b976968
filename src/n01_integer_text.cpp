// N01: integer wrappers and text.  Oracle: a parser over unsigned __int128 written from the definitions.
#include "num_common.hpp"
#include "library/Java/Lang/NumberFormatException/NumberFormatException.hpp"
#include "library/Java/Lang/UnsupportedOperationException/UnsupportedOperationException.hpp"
using namespace jav;
using namespace Java::Lang;
typedef __int128 wide;

static std::string dec(wide v, int radix = 10) {
    if (v == 0) return "0";
    bool neg = v < 0; if (neg) v = -v;
    std::string s; while (v) { s += "0123456789abcdefghijklmnopqrstuvwxyz"[(int)(v % radix)]; v /= radix; }
    if (neg) s += '-';
    std::reverse(s.begin(), s.end()); return s;
}
static int digitOf(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
struct Num { bool ok; wide v; };
static Num digits(const std::string &s, size_t i, int radix) {
    if (i >= s.size()) return {false, 0};
    wide v = 0; const wide cap = (wide)1 << 100;
    for (; i < s.size(); i++) { int d = digitOf(s[i]); if (d >= radix) return {false, 0}; v = v * radix + d; if (v > cap) v = cap; }
    return {true, v};
}
// [sign] digits, within lo..hi
static Num parse(const std::string &s, int radix, wide lo, wide hi) {
    if (s.empty()) return {false, 0};
    bool neg = s[0] == '-'; size_t i = neg || s[0] == '+';
    Num n = digits(s, i, radix); if (neg) n.v = -n.v;
    if (n.v < lo || n.v > hi) n.ok = false;
    return n;
}
static Num decode(const std::string &s, wide lo, wide hi, bool hash) {
    if (s.empty()) return {false, 0};
    bool neg = s[0] == '-'; size_t i = neg || s[0] == '+'; int radix = 10;
    if (s.compare(i, 2, "0x") == 0 || s.compare(i, 2, "0X") == 0) { radix = 16; i += 2; }
    else if (hash && i < s.size() && s[i] == '#') { radix = 16; i++; }
    else if (i + 1 < s.size() && s[i] == '0') { radix = 8; i++; }
    Num n = digits(s, i, radix); if (neg) n.v = -n.v;
    if (n.v < lo || n.v > hi) n.ok = false;
    return n;
}
static const wide IMIN = INT_MIN, IMAX = INT_MAX, LMIN = LONG_MIN, LMAX = LONG_MAX;
#define NFE(T, e) attemptAs<NumberFormatException>("NumberFormatException", [&] { return (T)(e); })
template<class T> static Out<T> want(Num n) { return n.ok ? ret<T>((T)n.v) : thrown<T>("NumberFormatException"); }

static void parseAll(mc::Ctx &c, const std::string &s, int radix) {
    c.note([&] { return "text " + mc::show(s) + ", radix " + std::to_string(radix); });
    c.state(mc::hashStr(s, radix));
    bool r32 = radix >= 2 && radix <= 32, r36 = radix >= 2 && radix <= 36;
    String t = J(s);
    Num bad{false, 0};
    c.eq(NFE(int, Integer::parseInt(t, radix)), want<int>(r32 ? parse(s, radix, IMIN, IMAX) : bad), "Integer.parseInt(text, radix)");
    c.eq(NFE(int, Integer::valueOf(t, radix).intValue()), want<int>(r32 ? parse(s, radix, IMIN, IMAX) : bad), "Integer.valueOf(text, radix)");
    Num u = !s.empty() && s[0] == '-' ? bad : parse(s, radix, 0, 0xffffffffu);
    c.eq(NFE(int, Integer::parseUnsignedInt(t, radix)), want<int>(r32 ? u : bad), "Integer.parseUnsignedInt(text, radix)");
    c.eq(NFE(int, Bytes::parseBytes(t, radix)), want<int>(r32 ? parse(s, radix, 0, 255) : bad), "Bytes.parseBytes(text, radix)");
    c.eq(NFE(int, Bytes::valueOf(t, radix).intValue()), want<int>(r32 ? parse(s, radix, 0, 255) : bad), "Bytes.valueOf(text, radix)");
    // Long reports text that is not a number with -1 (pinned by the existing tests)
    Num l = r36 ? parse(s, radix, LMIN, LMAX) : bad;
    c.eq(Long::parseLong(t, radix), l.ok ? (long)l.v : -1L, "Long.parseLong(text, radix)");
    c.eq(Long::valueOf(t, radix).longValue(), l.ok ? (long)l.v : -1L, "Long.valueOf(text, radix)");
    if (radix != 10) return;
    Num i = parse(s, 10, IMIN, IMAX);
    c.eq(NFE(int, Integer::parseInt(t)), want<int>(i), "Integer.parseInt(text)");
    c.eq(NFE(int, Integer(t).intValue()), want<int>(i), "Integer(text)");
    c.eq(NFE(int, Integer::valueOf(t).intValue()), want<int>(i), "Integer.valueOf(text)");
    c.eq(NFE(int, Integer::parseUnsignedInt(t)), want<int>(u), "Integer.parseUnsignedInt(text)");
    c.eq(NFE(int, Short::parseShort(t).intValue()), want<int>(parse(s, 10, SHRT_MIN, SHRT_MAX)), "Short.parseShort(text)");
    c.eq(NFE(int, Bytes::parseBytes(t)), want<int>(parse(s, 10, 0, 255)), "Bytes.parseBytes(text)");
    c.eq(NFE(int, Bytes(t).intValue()), want<int>(parse(s, 10, 0, 255)), "Bytes(text)");
    c.eq(NFE(int, Bytes::valueOf(t).intValue()), want<int>(parse(s, 10, 0, 255)), "Bytes.valueOf(text)");
    c.eq(Long::parseLong(t), l.ok ? (long)l.v : -1L, "Long.parseLong(text)");
    c.eq(NFE(int, Integer::decode(t).intValue()), want<int>(decode(s, IMIN, IMAX, false)), "Integer.decode(text)");
    c.eq(NFE(int, Bytes::decode(t).intValue()), want<int>(decode(s, 0, 255, false)), "Bytes.decode(text)");
    Num ld = decode(s, LMIN, LMAX, true); long lw = ld.ok ? (long)ld.v : -1L;
    c.eq(Long::decode(t).longValue(), lw, "Long.decode(text)");
    c.eq(Long::valueOf(t).longValue(), lw, "Long.valueOf(text)");
    c.eq(Long::getLong(t).longValue(), lw, "Long.getLong(text)");
}

static const std::string AL("10-+9fxX a8#z\0", 14);
SCENARIO(shortTexts, "every text over {1,0,-,+,9,f,x,X,blank,a,8,#,z,NUL} x radixes", 2, 3, 4) {
    static const int R[] = {10, 2, 16, 8, 32, 36, 3, 0, 1, 33, 37, -1};
    int radix = c.pick(R); int n = c.range(0, depth); std::string s;
    for (int i = 0; i < n; i++) s += AL[c.choose((int)AL.size())];
    parseAll(c, s, radix);
}
SCENARIO(prefixed, "signs, base prefixes and leading zeros before short digit strings, radix 10 and 16", 1, 3, 4) {
    static const char *P[] = {"", "0x", "0X", "#", "0", "00", "-0x", "+0x", "-0", "+0", "-#", "0x-", "0-", "#+", "--", "+-"};
    std::string s = c.pick(P); int n = c.range(0, depth); for (int i = 0; i < n; i++) s += "1079fFg-"[c.choose(8)];
    parseAll(c, s, c.flip() ? 10 : 16);
}
SCENARIO(limits, "the numerals within 3 of every type's limits, in every radix, with 0-2 leading zeros and junk before and after", 1, 1, 1) {
    static const wide B[] = {0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, IMAX, IMAX + 1, (wide)UINT32_MAX, (wide)UINT32_MAX + 1, LMAX, LMAX + 1, (wide)UINT64_MAX, (wide)UINT64_MAX + 1, LMAX * 10};
    int radix = c.range(2, 36); wide v = c.pick(B) + c.range(-3, 3); if (v < 0) throw mc::Skip();
    static const char *PRE[] = {"", "-", "+", "0", "-00", " ", "-+"}; static const char *POST[] = {"", "0", " ", "-", ".", "%"};
    int upper = c.flip();
    std::string d = dec(v, radix); if (upper) for (char &ch : d) ch = toupper(ch);
    std::string pre = c.pick(PRE);
    for (const char *post : POST) parseAll(c, pre + d + post, radix);
}
SCENARIO(limitsDecode, "the numerals within 3 of every type's limits behind every base prefix", 1, 1, 1) {
    static const wide B[] = {0, 255, 256, 32768, IMAX, IMAX + 1, (wide)UINT32_MAX, LMAX, LMAX + 1, (wide)UINT64_MAX + 1};
    static const struct { const char *p; int radix; } P[] = {{"", 10}, {"-", 10}, {"+", 10}, {"0x", 16}, {"-0x", 16}, {"+0X", 16}, {"#", 16}, {"-#", 16}, {"0", 8}, {"-0", 8}, {"+00", 8}};
    auto p = P[c.choose(11)]; wide v = c.pick(B) + c.range(-3, 3); if (v < 0) throw mc::Skip();
    parseAll(c, p.p + dec(v, p.radix), 10);
}
static void intText(mc::Ctx &c, int v) {
    c.note([&] { return "value " + std::to_string(v); }); c.state(mc::mix(1, v));
    unsigned u = v; std::string d = dec(v);
    Integer o(v); std::ostringstream os; os << o;
    c.eq(S(o.toString()), d, "Integer.toString()"); c.eq(std::string(o.stringValue()), d, "stringValue"); c.eq(os.str(), d, "<<"); c.eq(o.charValue(), d[0], "charValue");
    c.eq(S(Integer::toString(v)), d, "Integer.toString(value)");
    c.eq(S(Integer::toBinaryString(v)), dec((wide)u, 2), "toBinaryString"); c.eq(S(Integer::toOctalString(v)), dec((wide)u, 8), "toOctalString"); c.eq(S(Integer::toHexString(v)), dec((wide)u, 16), "toHexString");
    c.eq(S(Integer::toUnsignedString(v)), dec((wide)u), "toUnsignedString");
    for (int r : {2, 8, 10, 16, 1, 33, 0, -5}) { int rr = r < 2 || r > 32 ? 10 : r; c.eq(S(Integer::toString(v, r)), dec(v, rr), "Integer.toString(value, radix)"); c.eq(S(Integer::toUnsignedString(v, r)), dec((wide)u, rr), "toUnsignedString(value, radix)"); }
    for (int r : {3, 7, 32}) c.eq(attempt([&] { return S(Integer::toString(v, r)); }), v ? thrown<std::string>() : ret<std::string>("0"), "Integer.toString(value, unsupported radix)");
    c.eq(Integer::parseInt(Integer::toString(v)), v, "parseInt(toString(value))"); c.eq(Integer::parseUnsignedInt(Integer::toUnsignedString(v, 16), 16), v, "parseUnsignedInt(toUnsignedString(value, 16), 16)");
    c.eq(Integer::toUnsignedLong(v), (long)u, "toUnsignedLong");
    short sv = (short)v; Short sh(sv); std::ostringstream os2; os2 << sh;
    c.eq(S(sh.toString()), dec(sv), "Short.toString"); c.eq(os2.str(), dec(sv), "Short <<"); c.eq(sh.charValue(), dec(sv)[0], "Short.charValue");
    c.eq((int)Short::parseShort(sh.toString()).shortValue(), (int)sv, "parseShort(toString())");
    byte bv = (byte)v; Bytes b(bv); c.eq(S(b.toString()), dec(bv), "Bytes.toString"); c.eq(S(Bytes::toString(bv)), dec(bv), "Bytes.toString(value)");
    c.eq(b.charValue(), (char)bv, "Bytes.charValue"); c.eq(Bytes::parseBytes(b.toString()), bv, "parseBytes(toString())"); c.eq(Bytes::valueOf(bv).byteValue(), bv, "Bytes.valueOf(value)"); c.eq(S(Bytes::valueOf(bv).toString()), dec(bv), "Bytes.valueOf(value).toString");
    c.eq(Bytes::toUnsignedInt(bv), (int)bv, "Bytes.toUnsignedInt"); c.eq(Bytes::toUnsignedLong(bv), (long)bv, "Bytes.toUnsignedLong");
}
static void longText(mc::Ctx &c, long v) {
    c.note([&] { return "value " + std::to_string(v); }); c.state(mc::mix(2, v));
    unsigned long u = v; std::string d = dec(v); Long o(v); std::ostringstream os; os << o;
    c.eq(S(o.toString()), d, "Long.toString()"); c.eq(S(Long::toString(v)), d, "Long.toString(value)"); c.eq(os.str(), d, "<<");
    c.eq(S(Long::toBinaryString(v)), dec((wide)u, 2), "Long.toBinaryString"); c.eq(S(Long::toOctalString(v)), dec((wide)u, 8), "Long.toOctalString"); c.eq(S(Long::toHexString(v)), dec((wide)u, 16), "Long.toHexString");
    c.eq(Long::parseLong(Long::toString(v)), v, "parseLong(toString(value))"); c.eq(Long::valueOf(v).longValue(), v, "valueOf(value)"); c.eq(Long::decode(o.toString()).longValue(), v, "decode(toString())");
}
SCENARIO(ints, "text of Integer, Short and Bytes: all words with up to 3 bits set, all runs, their complements, powers of ten", 1, 1, 1) { intText(c, (int)word(c, 32)); }
SCENARIO(allShorts, "text of Integer, Short and Bytes: every 16 bit value", 1, 1, 1) { int hi = c.range(-128, 127); for (int lo = 0; lo < 256; lo++) intText(c, hi * 256 + lo); }
SCENARIO(longs, "text of Long: all words with up to 3 bits set, all runs, their complements, powers of ten", 1, 1, 1) { longText(c, (long)word(c, 64)); }
SCENARIO(booleans, "Boolean from every text that differs from true, false, yes, 1 in the case of letters or one character", 1, 1, 2) {
    static const char *W[] = {"true", "false", "TRUE", "t", "", "1", "yes", "truee", "tru"}; std::string s = c.pick(W); int mask = c.range(0, 15), cut = c.choose(6);
    for (size_t i = 0; i < s.size() && i < 4; i++) if (mask >> i & 1) s[i] ^= 0x20;
    if (cut < (int)s.size() && c.flip()) { if (c.flip()) s.erase(cut, 1); else s.insert(cut, " "); }
    std::string l = s; for (char &ch : l) ch = ch >= 'A' && ch <= 'Z' ? ch + 32 : ch; bool w = l == "true";
    c.note([&] { return "text " + mc::show(s); }); c.state(mc::hashStr(s));
    c.eq((bool)Boolean(s.c_str()).booleanValue(), w, "Boolean(text)"); c.eq((bool)Boolean::parseBoolean(s.c_str()), w, "parseBoolean"); c.eq((bool)Boolean::getBoolean(s.c_str()), w, "getBoolean");
    c.eq((bool)Boolean::valueOf(s.c_str()).booleanValue(), w, "valueOf(text)"); c.eq((bool)Boolean::valueOf(J(s)).booleanValue(), w, "valueOf(String)");
    for (bool a : {false, true}) { Boolean o((boolean)a); std::ostringstream os; os << o; std::string t = a ? "true" : "false"; c.eq(S(o.toString()), t, "toString"); c.eq(S(Boolean::toString(a)), t, "toString(value)"); c.eq(os.str(), t, "<<"); c.eq((bool)Boolean::valueOf((boolean)a).booleanValue(), a, "valueOf");
        for (bool b : {false, true}) { c.eq(Boolean::compare(a, b), (int)a - (int)b, "compare"); c.eq(o.compareTo(Boolean((boolean)b)), (int)a - (int)b, "compareTo"); Boolean x((boolean)a); x = Boolean((boolean)b); c.eq((bool)x.booleanValue(), b, "="); } }
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
