// E01: Base64 in its basic, URL and MIME forms against RFC 4648 / RFC 2045, written out here independently.
#include "jn.hpp"
#include "library/Java/Util/Base64/Base64.hpp"
using namespace jav;
using namespace Java::Lang;
using namespace Java::Util;
typedef std::string B;
static Array<byte> arr(const B &s) { Array<byte> a; for (char k : s) a.push((byte)k); return a; }
static B str(const Array<byte> &a) { B s; for (int i = 0; i < (int)a.length; i++) s += (char)a.get(i); return s; }
static std::string abc(bool url) { std::string s; for (char k = 'A'; k <= 'Z'; k++) s += k; for (char k = 'a'; k <= 'z'; k++) s += k; for (char k = '0'; k <= '9'; k++) s += k; return s + (url ? "-_" : "+/"); }
static const std::string ABC[2] = {abc(false), abc(true)};
// the reference: bits, six at a time
static B encode(const B &in, bool url, bool pad, int line, const B &sep) {
    B bits; for (unsigned char k : in) for (int i = 7; i >= 0; i--) bits += (char)(k >> i & 1); while (bits.size() % 6) bits += (char)0;
    B out; for (size_t i = 0; i < bits.size(); i += 6) { int v = 0; for (int j = 0; j < 6; j++) v = v * 2 + bits[i + j]; out += ABC[url][v]; } while (pad && out.size() % 4) out += '=';
    if (line <= 0) return out; B cut; for (size_t i = 0; i < out.size(); i += line) { if (i) cut += sep; cut += out.substr(i, line); } return cut;
}
// the reference decoder: nothing when the text is not an encoding
static bool decode(const B &in, bool url, bool mime, B &out) {
    out.clear(); if (mime && in.size() == 1 && ABC[url].find(in[0]) == B::npos && in[0] != '=') return true; B bits; int n = 0; size_t i = 0;
    for (; i < in.size(); i++) {
        size_t v = ABC[url].find(in[i]); if (in[i] == '=') break; if (v == B::npos) { if (mime) continue; return false; }
        for (int j = 5; j >= 0; j--) bits += (char)(v >> j & 1); n++;
    }
    if (i < in.size()) { if (n % 4 < 2) return false; i++; if (n % 4 == 2) { if (i >= in.size() || in[i] != '=') return false; i++; } for (; i < in.size(); i++) if (!mime || ABC[url].find(in[i]) != B::npos) return false; }
    if (n % 4 == 1) return false; for (size_t k = 0; k + 8 <= bits.size(); k += 8) { int v = 0; for (int j = 0; j < 8; j++) v = v * 2 + bits[k + j]; out += (char)v; } return true;
}
static std::string hex(const B &s) { std::string r; for (unsigned char k : s) { char t[4]; snprintf(t, 4, "%02x ", k); r += t; } return r; }
struct Form { const char *name; bool url, pad, mime; int line; B sep; };
static Base64::Encoder encoder(const Form &f) { Base64::Encoder e = f.url ? Base64::getUrlEncoder() : f.line == 76 && f.sep == "\r\n" ? Base64::getMimeEncoder() : f.mime ? Base64::getMimeEncoder(f.line, arr(f.sep)) : Base64::getEncoder(); return f.pad ? e : e.withoutPadding(); }
static Base64::Decoder decoder(const Form &f) { return f.url ? Base64::getUrlDecoder() : f.mime ? Base64::getMimeDecoder() : Base64::getDecoder(); }
static const Form F[] = {{"basic", false, true, false, -1, ""}, {"basic without padding", false, false, false, -1, ""}, {"URL", true, true, false, -1, ""}, {"URL without padding", true, false, false, -1, ""}, {"MIME", false, true, true, 76, "\r\n"}, {"MIME without padding", false, false, true, 76, "\r\n"},
    {"MIME lines of 4", false, true, true, 4, "\n"}, {"MIME lines of 8, no padding", false, false, true, 8, "@#"}, {"MIME lines of 11", false, true, true, 11, "\r\n"}, {"MIME lines of 4, no separator", false, true, true, 4, ""}, {"MIME lines of 3", false, true, true, 3, "\r\n"}, {"MIME lines of 0", false, true, true, 0, "\r\n"}, {"MIME lines of -1", false, true, true, -1, "\r\n"}, {"MIME lines of 76, long separator", false, true, true, 76, "\r\n \r\n"}};
static void one(mc::Ctx &c, const B &in, const Form &f, bool all) {
    B w = encode(in, f.url, f.pad, f.line / 4 * 4, f.sep); Base64::Encoder e = encoder(f); Array<byte> a = arr(in); B g = str(e.encode(a)); auto bad = [&](const std::string &what) { c.fail(std::string(f.name) + " of " + hex(in) + ": " + what); };
    if (g != w) bad("encode() is " + mc::show(g) + ", expected " + mc::show(w)); if (S(e.encodeToString(a)) != w) bad("encodeToString()");
    Base64::Decoder d = decoder(f); if (str(d.decode(arr(w))) != in) bad("decode(encode()) is " + hex(str(d.decode(arr(w))))); if (str(d.decode(String(w.c_str()))) != in) bad("decode(String)");
    if (!all) return;
    for (int k = -1; k <= 2; k++) { int n = (int)w.size() + k; if (n < 0) continue; Array<byte> to; for (int i = 0; i < n; i++) to.push('*'); auto r = attempt([&] { return e.encode(a, to); }); if (k < 0) { if (!r.threw) bad("encode() into too small an array was not refused"); if (str(to) != B(n, '*')) bad("encode() into too small an array wrote to it"); } else { if (r.threw || r.value != (int)w.size()) bad("encode() into an array"); if (str(to) != w + B(k, '*')) bad("encode() into an array wrote " + mc::show(str(to))); } }
    for (int k = -1; k <= 2; k++) { int n = (int)in.size() + k; if (n < 0) continue; Array<byte> to; for (int i = 0; i < n; i++) to.push('*'); auto r = attempt([&] { return d.decode(arr(w), to); }); if (k < 0) { if (!r.threw) bad("decode() into too small an array was not refused"); if (str(to) != B(n, '*')) bad("decode() into too small an array wrote to it"); } else { if (r.threw || r.value != (int)in.size()) bad("decode() into an array"); if (str(to) != in + B(k, '*')) bad("decode() into an array wrote " + mc::show(str(to))); } }
}
SCENARIO(two, "all byte pairs in 4 forms", 1, 1, 1) { int a = c.choose(256); c.note([&] { return "first byte " + std::to_string(a); }); c.state(a); for (int f = 0; f < 4; f++) { one(c, B(1, (char)a), F[f], true); for (int b = 0; b < 256; b++) one(c, B(1, (char)a) + (char)b, F[f], b % 85 == 0); } }
SCENARIO(three, "all triples of 20 (64) byte values in 4 forms", 1, 1, 2) {
    static const unsigned char V[] = {0, 1, 2, 3, 4, 0x0f, 0x10, 0x3e, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xf0, 0xfb, 0xfc, 0xfe, 0xff}; auto val = [&](int i) { return (char)(depth == 1 ? V[i] : i * 4 + i / 16); }; int n = depth == 1 ? 20 : 64; int a = c.choose(n), b = c.choose(n); c.state(mc::mix(a, b)); for (int k = 0; k < n; k++) for (int f = 0; f < 4; f++) one(c, B{val(a), val(b), val(k)}, F[f], false);
}
SCENARIO(lengths, "all lengths up to 240 of 6 patterns in 14 forms, into new arrays and arrays of every near size", 1, 1, 1) {
    int n = c.range(0, 240), p = c.choose(6); B s; for (int i = 0; i < n; i++) s += (char)(p == 0 ? 0 : p == 1 ? 0xff : p == 2 ? i : p == 3 ? i * 37 + 5 : p == 4 ? 0xfb : "Man"[i % 3]); c.note([&] { return "length " + std::to_string(n) + " pattern " + std::to_string(p); }); c.state(mc::mix(n, p)); for (const Form &f : F) one(c, s, f, true);
}
static const char K[] = {'T', 'Q', '=', '\n', '-', '/', (char)0x80, 0, '+', '_', 'w'};
static void texts(mc::Ctx &c, int len, bool url, bool mime, int vals) {
    B s; for (int i = 0; i < len; i++) s += K[c.choose(vals)]; c.note([&] { return mc::show(s); }); uint64_t h = len; for (char k : s) h = h * 16 + (k & 15); c.state(h); Form f{"", url, true, mime, -1, ""}; Base64::Decoder d = decoder(f); B w; bool ok = decode(s, url, mime, w);
    auto r = attempt([&] { return str(d.decode(arr(s))); }); if (ok) c.check(!r.threw, "decode() refused a proper encoding"); else { c.check(r.threw, "decode() accepted what is not an encoding, as " + hex(r.value)); return; } c.eq(hex(r.value), hex(w), "decode()");
    Array<byte> to; for (size_t i = 0; i <= w.size(); i++) to.push('*'); c.eq(d.decode(arr(s), to), (int)w.size(), "decode() into an array"); c.eq(str(to), w + "*", "decode() into an array");
}
SCENARIO(basicText, "the basic decoder on all texts up to 6 (8) over 6 characters", 0, 6, 8) { texts(c, depth, false, false, 6); }
SCENARIO(urlText, "the URL decoder on all texts up to 5 (6) over 11 characters", 0, 5, 6) { texts(c, depth, true, false, 11); }
SCENARIO(mimeText, "the MIME decoder on all texts up to 7 (9) over 6 characters", 0, 7, 9) { texts(c, depth, false, true, 6); }
SCENARIO(mimeText2, "the MIME decoder on all texts up to 5 (6) over 11 characters", 0, 5, 6) { texts(c, depth, false, true, 11); }
SCENARIO(longMime, "MIME texts of up to 100 lines with junk between the characters, and misplaced characters after the padding", 1, 1, 1) {
    int n = c.range(0, 100), kind = c.choose(4); B s, w; for (int i = 0; i < n; i++) { s += "TWFu"; w += "Man"; s += kind == 0 ? "\r\n" : kind == 1 ? " \t\x80*" : kind == 2 ? "" : "-"; } s += "TQ=="; w += "M"; c.state(mc::mix(n, kind)); c.note([&] { return std::to_string(n) + " lines of kind " + std::to_string(kind); }); Base64::Decoder d = Base64::getMimeDecoder();
    c.eq(str(d.decode(arr(s))), w, "decode()"); c.eq(str(d.decode(arr(s + "\r\n=-"))), w, "decode() with junk at the end"); c.check(attempt([&] { return str(d.decode(arr(s + "\nTQ=="))); }).threw, "characters after the padding were accepted"); if (kind == 2) { Base64::Decoder b = Base64::getDecoder(); c.check(attempt([&] { return str(b.decode(arr(s + "T"))); }).threw, "characters after the padding were accepted"); c.check(attempt([&] { return str(b.decode(arr(s + "="))); }).threw, "characters after the padding were accepted"); }
}
SCENARIO(separators, "separators with a character of the alphabet are refused", 1, 1, 1) { int k = c.choose(256), at = c.choose(2); B s = at ? B("\n") + (char)k : B(1, (char)k) + "\r"; bool bad = k == '=' || ABC[0].find((char)k) != B::npos; c.state(mc::mix(k, at)); c.note([&] { return hex(s); }); c.eq(attempt([&] { Base64::Encoder e = Base64::getMimeEncoder(8, arr(s)); return 0; }).threw, bad && true, "getMimeEncoder()"); }
int main(int argc, char **argv) { return mc::main(argc, argv); }
