// E02: URLEncoder and URLDecoder.
#include "jn.hpp"
#include "library/Java/Net/URLEncoder/URLEncoder.hpp"
#include "library/Java/Net/URLDecoder/URLDecoder.hpp"
#include "library/Java/Io/UnsupportedEncodingException/UnsupportedEncodingException.hpp"
using namespace jav;
using namespace Java::Lang;
using namespace Java::Net;
typedef std::string B;
static String text(const B &b) { Array<char> a; for (char k : b) a.push(k); return String(a); }
static bool plain(unsigned char k) { return (k >= 'a' && k <= 'z') || (k >= 'A' && k <= 'Z') || (k >= '0' && k <= '9') || k == '-' || k == '_' || k == '.' || k == '~'; }
static B lower(B s) { for (char &k : s) if (k >= 'A' && k <= 'Z') k += 32; return s; }
static B encode(const B &in) { B r; for (unsigned char k : in) if (plain(k)) r += (char)k; else if (k == ' ') r += '+'; else { char t[4]; snprintf(t, 4, "%%%02x", k); r += t; } return r; }
static int digit(char k) { return k >= '0' && k <= '9' ? k - '0' : k >= 'a' && k <= 'f' ? k - 'a' + 10 : k >= 'A' && k <= 'F' ? k - 'A' + 10 : -1; }
// what a well formed text stands for; false for others
static bool decode(const B &in, B &out) { out.clear(); for (size_t i = 0; i < in.size(); i++) if (in[i] == '+') out += ' '; else if (in[i] != '%') out += in[i]; else { if (i + 2 >= in.size()) return false; int a = digit(in[i + 1]), b = digit(in[i + 2]); if (a < 0 || b < 0) return false; out += (char)(a * 16 + b); i += 2; } return true; }
static void one(mc::Ctx &c, const B &s) {
    String e = URLEncoder::encode(text(s)); if (S(e) != encode(s)) c.fail("encode(" + mc::show(s) + ") is " + S(e) + ", expected " + encode(s)); String d = URLDecoder::decode(e); if (S(d) != s) c.fail("decode(encode(" + mc::show(s) + ")) is " + mc::show(S(d)));
    if ((int)d.length() != (int)s.size()) c.fail("length() of the decoded text of " + mc::show(s)); B up = S(e); for (size_t i = 0; i + 2 < up.size(); i++) if (up[i] == '%') { up[i + 1] = toupper(up[i + 1]); up[i + 2] = toupper(up[i + 2]); } if (S(URLDecoder::decode(text(up))) != s) c.fail("decode(" + up + ") is not " + mc::show(s));
}
SCENARIO(pairs, "all texts of up to two bytes", 0, 2, 2) { B s; if (depth) s += (char)c.choose(256); c.note([&] { return mc::show(s); }); if (depth < 2) { c.state(s.empty() ? 256 : (unsigned char)s[0]); one(c, s); return; } c.state((unsigned char)s[0]); for (int k = 0; k < 256; k++) one(c, s + (char)k); }
SCENARIO(texts, "all texts up to 5 (6) over 10 characters", 3, 5, 6) { static const char K[] = {'a', ' ', '%', '+', 0, (char)0xc3, '~', '4', '/', '*'}; B s; for (int i = 0; i < depth; i++) s += c.pick(K); c.note([&] { return mc::show(s); }); uint64_t h = 5; for (char k : s) h = mc::mix(h, k); c.state(h); one(c, s); }
SCENARIO(lengths, "texts of up to 600 bytes of 5 patterns", 1, 1, 1) { int n = 10 * c.range(0, 60) + c.choose(2), p = c.choose(5); B s; for (int i = 0; i < n; i++) s += (char)(p == 0 ? 'a' : p == 1 ? ' ' : p == 2 ? 0xff : p == 3 ? i : 0); c.state(mc::mix(n, p)); one(c, s); }
SCENARIO(decoding, "decoding all texts up to 6 (7) over 8 characters: well formed ones exactly, no others read outside the text", 0, 6, 7) {
    static const char K[] = {'%', '4', 'f', 'C', '+', 'g', 0, (char)0xe1}; B s; for (int i = 0; i < depth; i++) s += c.pick(K); c.note([&] { return mc::show(s); }); uint64_t h = 6; for (char k : s) h = mc::mix(h, k); c.state(h); B w; bool ok = decode(s, w); auto r = attempt([&] { return S(URLDecoder::decode(text(s))); }); if (ok) { c.check(!r.threw, "decode() refused a well formed text"); c.eq(r.value, w, "decode()"); } else c.outcome(r.threw ? 1 : 2);
}
SCENARIO(names, "the encoding named is UTF-8 in any case, others are refused", 1, 1, 1) {
    static const char *N[] = {"UTF-8", "utf-8", "Utf-8", "uTF-8", "", "UTF-0", "UTF-", "UTF-88", "ISO-8859-1", "UTF8", " UTF-8"}; int k = c.choose(11); c.note([&] { return N[k]; }); c.state(k); bool ok = k < 4; for (int i = 0; i < 2; i++) { auto f = [&] { return i ? S(URLEncoder::encode("a b", N[k])) : S(URLDecoder::decode("a+b", N[k])); };
        auto r = attemptAs<Java::IO::UnsupportedEncodingException>("UnsupportedEncodingException", f); c.eq(r.threw, !ok, "refusal"); if (ok) c.eq(r.value, B(i ? "a+b" : "a b"), "text"); else c.eq(r.type, B("UnsupportedEncodingException"), "exception"); }
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
