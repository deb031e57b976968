// E05: MediaType.
#include "jn.hpp"
#include "library/Javax/Ws/Rs/Core/MediaType.hpp"
#include "library/Javax/Ws/Rs/Core/MediaTypeException/MediaTypeException.hpp"
using namespace jav;
using namespace Java::Lang;
using namespace Javax::Ws::Rs::Core;
typedef std::string B;
static B T(const String &s) { return S(s); }
static bool legal(const B &t, const B &s) { return !t.empty() && !s.empty() && (t != "*" || s == "*"); }
static const char *TYPE[] = {"*", "text", "application", "a", "texts", "tex"};
static const char *SUB[] = {"*", "html", "plain", "*+xml", "*+json", "atom+xml", "atom+json", "svg+xml", "xml", "json", "atom", "*xml", "+xml", "x", "atom+xmls", "*+xmls"};
static bool compatible(const B &t, const B &s, const B &u, const B &v) {
    if (t == "*" || u == "*") return true; if (t != u) return false; if (s == v || s == "*" || v == "*") return true; auto cut = [](const B &x, B &before, B &after) { size_t p = x.find('+'); if (p == B::npos) return false; before = x.substr(0, p); after = x.substr(p + 1); return true; }; B a, b, d, e;
    return cut(s, a, b) && cut(v, d, e) && b == e && (a == "*" || d == "*");
}
static void view(mc::Ctx &c, MediaType &m, const B &t, const B &s) { c.eq(T(m.getType()), t, "getType()"); c.eq(T(m.getSubtype()), s, "getSubtype()"); c.eq(B(m.toString()), t + "/" + s, "toString()"); c.eq((bool)m.isWildcardType(), t == "*", "isWildcardType()"); c.eq((bool)m.isWildcardSubtype(), s == "*" || s.compare(0, 2, "*+") == 0, "isWildcardSubtype()"); }
SCENARIO(pairs, "compatibility of all pairs of 6 types with 16 subtypes, in both orders", 1, 1, 1) {
    B t = c.pick(TYPE), s = c.pick(SUB), u = c.pick(TYPE), v = c.pick(SUB); if (!legal(t, s) || !legal(u, v)) throw mc::Skip(); c.note([&] { return t + "/" + s + " and " + u + "/" + v; }); uint64_t h = 3; for (char k : t + "/" + s + " " + u + "/" + v) h = mc::mix(h, k); c.state(h); MediaType a(t.c_str(), s.c_str()), b(u.c_str(), v.c_str()); bool w = compatible(t, s, u, v); c.eq((bool)a.isCompatible(b), w, "isCompatible()"); c.eq((bool)b.isCompatible(a), w, "isCompatible() the other way round"); c.check(a.isCompatible(a), "a type is not compatible with itself"); view(c, a, t, s); view(c, b, u, v);
    MediaType d = a; a = b; view(c, d, t, s); view(c, a, u, v); c.eq((bool)d.isCompatible(a), w, "isCompatible() of copies");
}
static void same(mc::Ctx &c, const B &what, const Out<B> &got, const Out<B> &want) { if (!(got == want)) c.fail(what + " " + show(got) + ", expected " + show(want)); }
template<class F> static Out<B> made(F f) { return attemptAs<MediaTypeException>("MediaTypeException", [&]() -> B { MediaType m = f(); return B(m.toString()) + "|" + T(m.getType()) + "|" + T(m.getSubtype()); }); }
SCENARIO(parsing, "valueOf of all texts up to 6 (7) over 8 characters", 0, 6, 7) {
    static const char K[] = {'a', '*', '/', ';', ' ', '+', 'x', '='}; B s; for (int i = 0; i < depth; i++) s += c.pick(K); c.note([&] { return mc::show(s); }); uint64_t h = 5; for (char k : s) h = mc::mix(h, k); c.state(h);
    B f = s.substr(0, s.find(';')); while (!f.empty() && f[0] == ' ') f.erase(0, 1); while (!f.empty() && f.back() == ' ') f.pop_back(); if (f == "*") f = "*/*"; size_t p = f.find('/'); if (p != B::npos && f.find('/', p + 1) != B::npos) throw mc::Skip();  // more than one slash: not defined
    Out<B> want = thrown<B>("MediaTypeException"); if (p != B::npos && legal(f.substr(0, p), f.substr(p + 1))) want = ret(f + "|" + f.substr(0, p) + "|" + f.substr(p + 1)); Out<B> got = made([&] { return MediaType::valueOf(String(s)); }); same(c, "valueOf(" + mc::show(s) + ")", got, want); c.outcome(want.threw);
    if (!want.threw) { MediaType m = MediaType::valueOf(String(s)), n = MediaType::valueOf(m.toString()); view(c, n, f.substr(0, p), f.substr(p + 1)); c.check(n.getParameters().isEmpty(), "parameters of a type without any"); }
}
SCENARIO(making, "all types and subtypes up to 3 over 3 characters, with and without parameters", 1, 1, 1) {
    static const char K[] = {'a', '*', '+'}; B t, s; for (int i = c.choose(4); i > 0; i--) t += c.pick(K); for (int i = c.choose(4); i > 0; i--) s += c.pick(K); int n = c.choose(3); HashMap<String, String> p; for (int i = 0; i < n; i++) p.put(i ? "charset" : "q", i ? "utf-8" : "1"); c.note([&] { return t + " and " + s + ", " + std::to_string(n) + " parameters"; }); uint64_t h = n; for (char k : t + "/" + s) h = mc::mix(h, k); c.state(h);
    Out<B> want = legal(t, s) ? ret(t + "/" + s + "|" + t + "|" + s) : thrown<B>("MediaTypeException"); same(c, "MediaType(type, subtype)", made([&] { return MediaType(t.c_str(), s.c_str()); }), want); same(c, "MediaType(type, subtype, parameters)", made([&] { return MediaType(t.c_str(), s.c_str(), p); }), want);
    if (!want.threw) { MediaType m(t.c_str(), s.c_str(), p); p.put("later", "x"); const HashMap<String, String> &q = m.getParameters(); c.eq((int)q.size(), n, "number of parameters"); if (n) c.eq(T(q.get("q")), B("1"), "parameter"); if (n > 1) c.eq(T(q.get("charset")), B("utf-8"), "parameter"); }
}
SCENARIO(constants, "the constants name the types they stand for", 1, 1, 1) {
    struct E { const String *s; const MediaType *t; const char *text; }; static const E L[] = {
#define X(n, t) {&MediaType::n, &MediaType::n##_TYPE, t}
        X(APPLICATION_ATOM_XML, "application/atom+xml"), X(APPLICATION_FORM_URLENCODED, "application/x-www-form-urlencoded"), X(APPLICATION_JSON, "application/json"), X(APPLICATION_OCTET_STREAM, "application/octet-stream"), X(APPLICATION_SVG_XML, "application/svg+xml"), X(APPLICATION_XHTML_XML, "application/xhtml+xml"), X(APPLICATION_XML, "application/xml"), X(MULTIPART_FORM_DATA, "multipart/form-data"), X(TEXT_HTML, "text/html"), X(TEXT_PLAIN, "text/plain"), X(TEXT_XML, "text/xml"), X(WILDCARD, "*/*")};
    int k = c.choose(12); B t = L[k].text; c.note([&] { return t; }); c.state(k); c.eq(T(*L[k].s), t, "the text constant"); MediaType m = *L[k].t; size_t p = t.find('/'); view(c, m, t.substr(0, p), t.substr(p + 1)); MediaType v = MediaType::valueOf(*L[k].s); view(c, v, t.substr(0, p), t.substr(p + 1)); c.check(v.isCompatible(m), "isCompatible()"); c.eq(T(MediaType::MEDIA_TYPE_WILDCARD), B("*"), "the wildcard"); MediaType d; view(c, d, "*", "*");
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
