// E03: MessageDigest (MD5 and SHA1) against independent references written from RFC 1321 and RFC 3174.
#include "jn.hpp"
#include "library/Java/Security/MessageDigest/MessageDigest.hpp"
#include "library/Java/Security/NoSuchAlgorithmException/NoSuchAlgorithmException.hpp"
#include <memory>
using namespace jav;
using namespace Java::Lang;
using namespace Java::Security;
typedef std::string B;
typedef uint32_t W;
static W rol(W x, int n) { return x << n | x >> (32 - n); }
// The references work on a whole padded message.
static B padded(const B &m, bool big) { B p = m + (char)0x80; while (p.size() % 64 != 56) p += '\0'; uint64_t bits = (uint64_t)m.size() * 8; for (int i = 0; i < 8; i++) p += (char)(bits >> 8 * (big ? 7 - i : i)); return p; }
static B words(const W *h, int n, bool big) { B r; for (int i = 0; i < n; i++) for (int j = 0; j < 4; j++) r += (char)(h[i] >> 8 * (big ? 3 - j : j)); return r; }
static B md5(const B &m) {
    static const int R[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}}; W h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}; B p = padded(m, false); static W T[64]; if (!T[0]) for (int i = 0; i < 64; i++) T[i] = (W)(uint64_t)floorl(fabsl(sinl((long double)(i + 1))) * 4294967296.0L);
    for (size_t o = 0; o < p.size(); o += 64) { W x[16]; for (int i = 0; i < 16; i++) { x[i] = 0; for (int j = 3; j >= 0; j--) x[i] = x[i] << 8 | (unsigned char)p[o + 4 * i + j]; } W a = h[0], b = h[1], c = h[2], d = h[3];
        for (int i = 0; i < 64; i++) { W f; int k, r = i / 16; if (r == 0) { f = (b & c) | (~b & d); k = i; } else if (r == 1) { f = (d & b) | (~d & c); k = (5 * i + 1) % 16; } else if (r == 2) { f = b ^ c ^ d; k = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); k = 7 * i % 16; } W t = d; d = c; c = b; b += rol(a + f + T[i] + x[k], R[r][i % 4]); a = t; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; }
    return words(h, 4, false);
}
static B sha1(const B &m) {
    W h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}; B p = padded(m, true);
    for (size_t o = 0; o < p.size(); o += 64) { W w[80]; for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 4; j++) w[i] = w[i] << 8 | (unsigned char)p[o + 4 * i + j]; } for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1); W a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; i++) { W f = i < 20 ? (b & c) | (~b & d) : i < 40 ? b ^ c ^ d : i < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d, k = i < 20 ? 0x5a827999 : i < 40 ? 0x6ed9eba1 : i < 60 ? 0x8f1bbcdc : 0xca62c1d6, t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
    return words(h, 5, true);
}
static const char *NAME[] = {"MD5", "SHA1"};
static B ref(int alg, const B &m) { return alg ? sha1(m) : md5(m); }
static void feed(MessageDigest &d, const B &s, int shift = 0) { if (s.empty()) return; std::unique_ptr<byte[]> p(new byte[s.size() + shift]); memcpy(p.get() + shift, s.data(), s.size()); d.update(p.get() + shift, (int)s.size()); }
static B get(mc::Ctx &c, MessageDigest &d, int alg, int extra) { int n = alg ? 20 : 16; std::unique_ptr<byte[]> p(new byte[n + extra]); memset(p.get(), 0xee, n + extra); int r = d.digest(p.get(), n + extra); c.eq(r, n, "digest()'s answer"); for (int i = 0; i < extra; i++) c.eq((int)p[n + i], 0xee, "the byte after the digest"); return B((char *)p.get(), n); }
static void same(mc::Ctx &c, const B &got, const B &want, const char *what) { if (got != want) c.fail(std::string(what) + " is " + mc::show(got) + ", expected " + mc::show(want)); }
static B pattern(int p, int n) { B s; for (int i = 0; i < n; i++) s += (char)(p == 0 ? 0 : p == 1 ? 0xff : p == 2 ? i : p == 3 ? i * 37 + 5 : 0x80 >> i % 8); return s; }

SCENARIO(references, "the references give the digests published with the algorithms", 1, 1, 1) {
    static const char *V[][3] = {{"", "d41d8cd98f00b204e9800998ecf8427e", "da39a3ee5e6b4b0d3255bfef95601890afd80709"}, {"abc", "900150983cd24fb0d6963f7d28e17f72", "a9993e364706816aba3e25717850c26c9cd0d89d"}, {"12345678901234567890123456789012345678901234567890123456789012345678901234567890", "57edf4a22be3c955ac49da2e2107b67a", "50abf5706a150990a08b0f42c6b3bcd8a7f6c1f6"}, {"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", "8215ef0796a20bcaaae116d3876c664a", "84983e441c3bd26ebaae4aa1f95129e5e54670f1"}};
    int k = c.choose(4), a = c.choose(2); if (k == 2 && a) throw mc::Skip(); B h; for (unsigned char x : ref(a, V[k][0])) { char t[3]; snprintf(t, 3, "%02x", x); h += t; } c.state(mc::mix(k, a)); c.eq(h, B(V[k][1 + a]), "the reference");
    B bytes; MessageDigest d = MessageDigest::getInstance(NAME[a]); feed(d, V[k][0]); same(c, get(c, d, a, 0), ref(a, V[k][0]), "digest()");
}
SCENARIO(lengths, "all lengths up to 200 (400) of 5 patterns, in one piece and cut at every place, from every alignment", 1, 1, 2) {
    int a = c.choose(2), n = c.choose(depth == 1 ? 201 : 401), p = c.choose(5); B s = pattern(p, n), w = ref(a, s); c.note([&] { return std::string(NAME[a]) + " of " + std::to_string(n) + " bytes of pattern " + std::to_string(p); }); c.state(mc::mix(mc::mix(a, n), p));
    for (int cut = 0; cut <= n; cut++) { MessageDigest d = MessageDigest::getInstance(NAME[a]); feed(d, s.substr(0, cut), cut % 4); feed(d, s.substr(cut), (cut + 1) % 4); same(c, get(c, d, a, cut % 3), w, "digest()"); }
}
SCENARIO(cuts, "129 bytes in all cuttings into pieces of 1, 7, 55, 63, 64, 65, 128 bytes", 1, 1, 1) {
    static const int K[] = {7, 55, 63, 64, 65, 128}; int a = c.choose(2); B s = pattern(3, 200); MessageDigest d = MessageDigest::getInstance(NAME[a]); int at = 0; uint64_t h = a; while (at < 200) { int k = std::min(c.pick(K), 200 - at); feed(d, s.substr(at, k)); at += k; h = mc::mix(h, k); } c.state(h); same(c, get(c, d, a, 0), ref(a, s), "digest()");
}
static const int LEN[] = {1, 55, 56, 63, 64, 65, 119, 128};
static void histories(mc::Ctx &c, int depth, bool small) {
    int a0 = c.choose(2), a1 = 1 - a0; struct One { MessageDigest d; int alg; B text; bool done; }; std::vector<std::shared_ptr<One>> v; v.push_back(std::make_shared<One>(One{MessageDigest::getInstance(NAME[a0]), a0, "", false})); v.push_back(std::make_shared<One>(One{MessageDigest::getInstance(NAME[a1]), a1, "", false})); uint64_t h = a0;
    for (int step = 0; step < depth; step++) {
        bool last = step == depth - 1; int op = c.choose(small ? 4 : 6), who = op < 4 ? c.choose(2) : 0; One &o = *v[who]; B id = B(NAME[o.alg]) + "#" + std::to_string(who);
        if (op == 0) { int n = small ? c.pick({1, 55, 64, 119}) : LEN[c.choose(8)]; B s = pattern(2 + step % 2, n); c.note([&] { return id + ".update(" + std::to_string(n) + " bytes)"; }); if (o.done) { o.text.clear(); o.done = false; } feed(o.d, s, step % 2); o.text += s; h = mc::mix(h, n * 4 + who); }
        else if (op == 1) { c.note([&] { return id + ".digest"; }); same(c, get(c, o.d, o.alg, step), ref(o.alg, o.text), "digest()"); o.done = true; h = mc::mix(h, 1000 + who); }
        else if (op == 2) { c.note([&] { return id + ".reset()"; }); o.d.reset(); o.text.clear(); o.done = false; h = mc::mix(h, 2000 + who); }
        else if (op == 3) { c.note([&] { return id + ": refused calls"; }); byte buf[20]; int n = o.alg ? 20 : 16; c.check(attempt([&] { return o.d.digest(nullptr, n); }).threw, "digest(null) was accepted"); for (int k : {-1, 0, 1, n - 1}) c.check(attempt([&] { return o.d.digest(buf, k); }).threw, "a short buffer was accepted"); c.check(attempt([&] { o.d.update(nullptr, 3); return 0; }).threw, "update(null) was accepted"); c.check(attempt([&] { o.d.update(buf, 0); return 0; }).threw, "update() of nothing was accepted"); h = mc::mix(h, 3000 + who); }
        else if (op == 4) { c.note([&] { return "a copy of #0 is made, asked for its name and dropped"; }); { MessageDigest e = o.d; c.eq(S(e.getAlgorithm()), B(NAME[o.alg]), "getAlgorithm() of a copy"); c.eq(e.getDigestLength(), o.alg ? 20 : 16, "getDigestLength() of a copy"); } h = mc::mix(h, 4000); }
        else { c.note([&] { return "#1 is dropped and made anew"; }); v[1] = std::make_shared<One>(One{MessageDigest::getInstance(NAME[a1]), a1, "", false}); h = mc::mix(h, 5000); }
        if (last) { for (auto &x : v) { c.eq(S(x->d.getAlgorithm()), B(NAME[x->alg]), "getAlgorithm()"); c.eq(x->d.getDigestLength(), x->alg ? 20 : 16, "getDigestLength()"); for (int k = 0; k < 2; k++) same(c, get(c, x->d, x->alg, 0), ref(x->alg, x->text), k ? "the digest asked for again" : "the digest at the end"); } c.state(h); }
    }
}
SCENARIO(all, "all histories of update (8 sizes), digest, reset, refused calls, copies and replacement over an MD5 and a SHA1", 1, 3, 4) { histories(c, depth, false); }
SCENARIO(deep, "longer histories of update (4 sizes), digest, reset and refused calls", 4, 4, 5) { histories(c, depth, true); }
SCENARIO(names, "other names of algorithms are refused", 1, 1, 1) { static const char *N[] = {"", "MD4", "md", "MD55", "SHA", "SHA-256", "SHA256", "SHA11", "MDx"}; const char *n = c.pick(N); c.note([&] { return B(n); }); c.state(mc::mix(7, std::hash<std::string>()(n))); c.eq(attemptAs<NoSuchAlgorithmException>("NoSuchAlgorithmException", [&] { MessageDigest d = MessageDigest::getInstance(n); return 0; }).type, B("NoSuchAlgorithmException"), "getInstance()"); }
// The bit count passes 2^32 at 512 MiB; the expected digests were computed with coreutils' md5sum and sha1sum.
static void big(mc::Ctx &c, bool one) {
    int a = c.choose(2); static const int M = 1 << 20; int pieces = 520; MessageDigest d = MessageDigest::getInstance(NAME[a]); c.state(mc::mix(a, one));
    if (one) { std::vector<byte> v((size_t)pieces * M, 'x'); d.update(v.data(), (int)v.size()); } else { std::vector<byte> v(M, 'x'); for (int i = 0; i < pieces; i++) d.update(v.data(), M); }
    B h; for (unsigned char x : get(c, d, a, 0)) { char t[3]; snprintf(t, 3, "%02x", x); h += t; } c.eq(h, B(a ? "82fcbf1a288eef6cd33eee3e4ba4eaddb7797a5f" : "da5dbd73de6b3c36485b8532e1163830"), "digest()");
}
SCENARIO(longPieces, "520 MiB in pieces of one MiB", 1, 1, 1) { big(c, false); }
SCENARIO(longWhole, "520 MiB in one piece", 1, 0, 1) { big(c, true); }
int main(int argc, char **argv) { return mc::main(argc, argv); }
