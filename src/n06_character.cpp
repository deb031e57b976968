// N06: Character: digits in every radix, order, code points of character arrays with their limits.
#include "num_common.hpp"
#include "library/Java/Lang/Character/Character.hpp"
using namespace jav;
using namespace Java::Lang;
SCENARIO(digits, "digit of every code point 0..0x3ff, its neighbours of the limits, in every radix -1..40", 1, 1, 1) {
    int radix = c.range(-1, 40), block = c.range(0, 15); c.note([&] { return "radix " + std::to_string(radix) + ", block " + std::to_string(block); });
    auto one = [&](int cp) { int d = cp >= '0' && cp <= '9' ? cp - '0' : cp >= 'a' && cp <= 'z' ? cp - 'a' + 10 : cp >= 'A' && cp <= 'Z' ? cp - 'A' + 10 : 99; c.eq(Character::digit(cp, radix), radix >= 2 && radix <= 36 && d < radix ? d : -1, "digit"); };
    for (int cp = block * 64; cp < block * 64 + 64; cp++) { one(cp); c.state(mc::mix(cp, radix)); }
    for (int cp : {-1, -48, INT_MIN, INT_MAX, 0x10000 + '5', 0x110000, 256 + '7', -256 + '7'}) one(cp);
}
SCENARIO(order, "compare and compareTo of all pairs of characters agree with each other, with < and with the difference of the codes", 1, 1, 1) {
    int x = c.range(0, 255); for (int y = 0; y < 256; y++) { char a = (char)x, b = (char)y; c.state(mc::mix(x, y)); Character ca(a), cb(b); c.eq(Character::compare(a, b), a - b, "compare"); c.eq(ca.compareTo(cb), a - b, "compareTo"); }
    Character k((char)x); c.eq(k.charValue(), (char)x, "charValue"); std::ostringstream os; os << k; c.eq(os.str(), std::string(1, (char)x), "<<"); Character d; c.eq(d.charValue(), '\0', "charValue of a default character"); d = k; c.eq(d.charValue(), (char)x, "charValue after ="); Character e(k); c.eq(e.charValue(), (char)x, "charValue of a copy");
}
SCENARIO(codePoints, "codePointAt, codePointBefore, codePointCount of all arrays up to 4 over {a, z, NUL, 0x7f}, all indices and limits", 2, 4, 5) {
    int n = c.range(1, depth); Array<char> a; std::string s; for (int i = 0; i < n; i++) { char ch = std::string("az\0\x7f", 4)[c.choose(4)]; a.push(ch); s += ch; }
    c.note([&] { return mc::show(s); }); c.state(mc::hashStr(s));
    for (int i = 0; i < n; i++) c.eq(Character::codePointAt(a, i), (int)s[i], "codePointAt(array, index)"); for (int i = 1; i <= n; i++) c.eq(Character::codePointBefore(a, i), (int)s[i - 1], "codePointBefore(array, index)");
    for (int l = -1; l <= n + 1; l++) for (int i = 0; i <= n + 1; i++) c.eq(Character::codePointAt(a, i, l), i >= l || l < 0 || l > n ? -1 : (int)s[i], "codePointAt(array, index, limit)");
    for (int st = -1; st <= n + 1; st++) for (int i = 0; i <= n; i++) c.eq(Character::codePointBefore(a, i, st), i <= st || st < 0 || st >= n ? -1 : (int)s[i - 1], "codePointBefore(array, index, start)");
    for (int o = -1; o <= n + 1; o++) for (int k = -1; k <= n + 1; k++) c.eq(Character::codePointCount(a, o, k), k > n - o || o < 0 || k < 0 ? -1 : k, "codePointCount(array, offset, count)");
}
SCENARIO(charCounts, "charCount next to every power of two", 1, 1, 1) { int cp = (1 << c.range(0, 20)) + c.range(-1, 1); c.state(cp); Character k; c.eq(k.charCount(cp), cp >= 0x10000 ? 2 : 1, "charCount"); }
int main(int argc, char **argv) { return mc::main(argc, argv); }
