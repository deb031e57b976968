// T08: several threads that only read one object, or copy it, do not affect each other, under every schedule.
#include "mcsched.hpp"
#include "statics.hpp"
#include "tz_common.hpp"
#include "library/Java/Util/ArrayList/ArrayList.hpp"
#include "library/Java/Util/LinkedList/LinkedList.hpp"
#include "library/Java/Util/Stack/Stack.hpp"
#include "library/Java/Util/HashMap/HashMap.hpp"
#include "library/Java/Util/Set/Set.hpp"
#include "library/Java/Util/PriorityQueue/PriorityQueue.hpp"
#include "library/Java/Util/BitSet/BitSet.hpp"
#include "library/Java/Util/Base64/Base64.hpp"
#include "library/Java/Util/Date/Date.hpp"
#include "library/Java/Util/UUID/UUID.hpp"
#include "library/Java/Util/EmptyStackException/EmptyStackException.hpp"
#include "library/Java/Text/SimpleDateFormat/SimpleDateFormat.hpp"
#include "library/Java/Lang/NumberFormatException/NumberFormatException.hpp"
#include "library/Javax/Ws/Rs/Core/MediaType.hpp"
using namespace jav;
using namespace Java::Lang;
using namespace Java::Util;
typedef std::string B; typedef long L;
struct Text {   // a result in text
    B s;
    Text &operator<<(const B &t) { s += t; s += ';'; return *this; }
    Text &operator<<(const char *t) { return *this << B(t); }
    Text &operator<<(const String &t) { return *this << S(t); }
    Text &operator<<(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return *this << B(b); }
    Text &operator<<(L v) { return *this << std::to_string(v); }
    Text &operator<<(int v) { return *this << (L)v; }
    template<class T> Text &operator<<(const Array<T> &a) { for (int i = 0; i < a.length; i++) *this << a.get(i); return *this; }
};
struct Read { const char *name; void (*f)(void *, int, Text &); };
struct Shared { const char *name; void *(*make)(); void (*unmake)(void *); std::vector<Read> reads; };
// The object is o, the number of the thread v and the result goes to t.
#define R(name, ...) Read{name, [](void *p, int v, Text &t) { X &o = *(X *)p; (void)v; (void)o; (void)t; __VA_ARGS__; }}
template<class X> static void drop(void *p) { delete (X *)p; }
static byte plain(int k) { return (byte)k; }
#define SHARED(type, maker, ...) { typedef type X; all.push_back({#type, []() -> void * { maker; }, drop<X>, {__VA_ARGS__, R("copy", X k(o); (void)k)}}); }
static const std::vector<Shared> &shared() {
    static std::vector<Shared> all; if (!all.empty()) return all;
    typedef HashMap<String, Integer> Table; typedef PriorityQueue<int> Heap; typedef Javax::Ws::Rs::Core::MediaType MediaType; typedef Java::Text::SimpleDateFormat Format;
    SHARED(String, return new X("alpha beta gamma, a text longer than its own buffer"), R("charAt", t << (int)o.charAt(3 + v)), R("indexOf", t << o.indexOf("eta") << o.lastIndexOf("a")), R("subString", t << o.subString(2 + v, 9)), R("compare", t << o.compareTo("alpha") << o.equals(String("x")) << o.equalsIgnoreCase("ALPHA")), R("hashCode", t << o.hashCode()),
        R("replace", t << o.replace('a', 'o') << o.trim() << o.toUpperCase() << o.toLowerCase()), R("split", t << o.split(" ")), R("toString", t << o.toString() << o.toCharPointer() << o.length()), R("bytes", auto a = o.getBytes(); t << a.length << (int)a.get(v)), R("concat", t << o.concat("!") << S(o + "x")), R("startsWith", t << o.startsWith("alpha") << o.endsWith("x") << o.contains(String("beta"))), R("copy and change", X k(o); k += "more"; k = k + "x"; t << k << k.length()))
    SHARED(StringBuilder, auto *b = new X("alpha beta"); b->append(12); return b, R("charAt", t << (int)o.charAt(3 + v) << o.length()), R("indexOf", t << o.indexOf("eta") << o.lastIndexOf("a") << o.indexOf("a", 2)), R("substring", t << o.substring(2 + v) << o.substring(1, 4)), R("capacity", t << (int)(o.capacity() >= o.length())), R("codePointAt", t << o.codePointAt(v)), R("toString", t << o.toString()), R("copy and change", X k(o); k.append(v); k.setCharAt(1, 'z'); t << k.toString()))
    SHARED(Integer, return new X(4711), R("toString", t << o.toString()), R("values", t << o.intValue() << o.longValue() << (double)o.doubleValue()), R("compare", t << o.compareTo(Integer(5)) << o.equals(Integer(4711)) << (L)o.hashCode()), R("plus", t << (o + Integer(v)).intValue() << (o == Integer(3))))
    SHARED(Double, return new X(2.5), R("toString", t << o.toString()), R("values", t << o.intValue() << o.doubleValue()), R("compare", t << o.compareTo(Double(5.0)) << (L)o.hashCode()), R("plus", t << (o + Double(v * 1.0)).doubleValue()))
    SHARED(ArrayList<String>, auto *a = new X; for (auto s : {"x", "y", "z", "x"}) a->add(s); return a, R("get", t << o.get(v)), R("indexOf", t << o.indexOf("x") << o.lastIndexOf("x")), R("contains", t << o.contains("z")), R("size", t << (L)o.size() << o.isEmpty()), R("iterate", for (auto &s : o) t << s), R("toArray", t << o.toArray()), R("iterate as const", for (auto &s : (const X &)o) t << s), R("toString", t << o.toString()), R("copy and change", X k(o); k.add("new"); k.set(0, "first"); k.remove(1); t << k.toString()))
    SHARED(LinkedList<Integer>, auto *a = new X; for (int i : {3, 1, 2}) a->add(i); return a, R("get", t << o.get(v).intValue()), R("ends", t << o.getFirst().intValue() << o.getLast().intValue() << o.peek().intValue()), R("size", t << (L)o.size()), R("element", t << o.element().intValue() << o.peekLast().intValue()), R("copy and change", X k(o); k.add(8 + v); k.poll(); t << (L)k.size() << k.getLast().intValue()))
    SHARED(Vector<Integer>, auto *a = new X; for (int i : {3, 1, 2, 1}) a->add(i); return a, R("get", t << o.get(v).intValue() << o.elementAt(1).intValue()), R("indexOf", t << o.indexOf(1) << o.lastIndexOf(1) << o.contains(7)), R("size", t << o.size() << o.isEmpty() << (int)(o.capacity() >= 4)), R("iterate", for (auto &i : o) t << i.intValue()), R("toArray", auto a = o.toArray(); t << a.length << a.get(v).intValue()), R("equals", t << o.equals(X(o))), R("ends", t << o.firstElement().intValue() << o.lastElement().intValue()), R("copy and change", X k(o); k.add(8 + v); k.remove(0); k.set(0, Integer(5)); t << k.size() << k.get(0).intValue()))
    SHARED(Stack<Integer>, auto *a = new X; for (int i : {3, 1, 2}) a->push(i); return a, R("peek", t << o.peek().intValue()), R("search", t << o.search(3)), R("empty", t << (int)o.empty() << o.size()), R("copy and change", X k(o); k.pop(); k.push(v); t << k.peek().intValue() << k.size()))
    SHARED(Table, auto *m = new X; m->put("k", 5); m->put("alpha", 6); return m, R("get", t << o.get("k").intValue()), R("getOrDefault", t << o.getOrDefault("no", 9).intValue()), R("containsKey", t << o.containsKey("alpha") << o.containsKey("no")), R("containsValue", t << o.containsValue(6)), R("size", t << (L)o.size() << o.isEmpty()), R("forEach", int *n = new int(0); o.forEach([n](String, Integer i) { *n += i.intValue(); return true; }); t << *n; delete n), R("entrySet", t << o.entrySet().size()), R("equals", t << o.equals(o)), R("toString", t << o.toString()), R("iterate", int n = 0; for (auto &e : o) n += e.second.intValue(); t << n), R("copy and change", X k(o); k.put("k", v); k.remove("alpha"); t << k.toString()))
    SHARED(Set<Integer>, auto *s = new X; s->add(3); s->add(70); return s, R("contains", t << o.contains(70) << o.contains(v)), R("size", t << o.size() << o.isEmpty()), R("iterate", int n = 0; for (auto &i : o) n += Integer(i).intValue(); t << n), R("copy and change", X k(o); k.add(v); k.remove(3); t << k.size() << k.contains(70)))
    SHARED(Heap, auto *q = new X; for (int i : {3, 1, 2}) q->add(i); return q, R("peek", t << o.peek()), R("contains", t << o.contains(2) << o.contains(9)), R("size", t << o.size()), R("toArray", t << o.toArray().length), R("copy and change", X k(o); k.poll(); k.add(v); t << k.peek() << k.size()))
    SHARED(BitSet, auto *b = new X; b->set(3); b->set(70); return b, R("get", t << o.get(3) << o.get(v + 68)), R("range", t << o.get(2, 80).cardinality()), R("cardinality", t << o.cardinality() << o.length() << o.isEmpty() << o.size()), R("next", t << o.nextSetBit(v) << o.nextClearBit(3) << o.previousSetBit(69) << o.previousClearBit(3)), R("hashCode", t << o.hashCode()), R("equals", t << o.equals(BitSet(o))), R("intersects", t << o.intersects(BitSet(o))), R("toString", t << o.toString()), R("toLongArray", t << o.toLongArray() << o.toByteArray().length), R("copy and change", X k(o); k.set(5 + v); k.clear(70); t << k.toString()))
    SHARED(Array<int>, return new X({4, 7, 9}), R("get", t << o.get(v) << o[1] << o.length), R("iterate", for (int i : o) t << i), R("copy and change", X k(o); k[0] = v; k.push(6); t << k))
    SHARED(Date, return new X(1500000000000L), R("fields", t << o.getHours() << o.getYear() << o.getDay() << o.getSeconds()), R("getTime", t << (L)o.getTime() << o.getTimezoneOffset() << o.hashCode()), R("compare", t << (int)o.after(Date(5)) << o.before(Date(5)) << o.compareTo(Date(5)) << o.equals(Date(5))), R("toString", t << o.toString()), R("toGMTString", t << o.toGMTString() << o.toLocaleString()), R("copy and change", X k(o); k.setMonth(v); k.setHours(5); t << (L)k.getTime()))
    SHARED(Format, auto *f = new X("%Y-%m-%d %H:%M"); f->setTimeZone(TimeZone::getTimeZone("NST3:30")); return f, R("format", t << o.format(Date(1500000000000L + v * 86400000L))))
    SHARED(UUID, return new X(UUID::fromString("00112233-4455-1677-8899-aabbccddeeff")), R("toString", t << o.toString()), R("bits", t << (L)o.getMostSignificantBits() << (L)o.getLeastSignificantBits()), R("compare", t << o.hashCode() << o.equals(UUID(o)) << o.compareTo(UUID(1, 2))))
    SHARED(MediaType, return new X("a", "b+c"), R("parts", t << o.getType() << o.getSubtype()), R("isCompatible", t << o.isCompatible(MediaType("a", "*"))))
    SHARED(Base64::Encoder, return new X(Base64::getMimeEncoder()), R("encode", Array<byte> a; for (int i = 0; i < 60; i++) a.push(plain(i + v)); auto e = o.encode(a); t << e.length << (int)e.get(v)), R("withoutPadding", Array<byte> a = {1}; t << o.withoutPadding().encode(a).length))
    SHARED(Base64::Decoder, return new X(Base64::getDecoder()), R("decode", Array<byte> a = {'Q', 'U', plain('I' + v), '='}; auto e = o.decode(a); t << e.length << (int)e.get(1)))
    SHARED(Throwable, return new X("what failed", new Throwable("why")), R("getMessage", t << o.getMessage()), R("getCause", t << (o.getCause() ? o.getCause()->getMessage() : String("none"))), R("copy and change", try { throw X(o); } catch (X &k) { t << k.getMessage() << k.getCause()->getMessage(); }))
    return all;
}
static Statics &statics() { static Statics *s = new Statics("t08_"); return *s; }
static void prepare() { statics().restore(); tz::use(tz::ZONES[4]); }
static const B &alone(mc::Ctx &c, int x, int op, int v) {
    static std::map<int, B> known; auto it = known.find((x * 32 + op) * 4 + v); if (it != known.end()) return it->second;
    B r; prepare(); const Shared &k = shared()[x]; sched::run(c, 0, [&] { void *p = k.make(); sched::spawn([&] { Text t; k.reads[op].f(p, v, t); sched::Quiet q; r = t.s; }); sched::joinAll(); k.unmake(p); });
    return known[(x * 32 + op) * 4 + v] = r;
}
static void go(mc::Ctx &c, int bound, int x, const std::vector<std::vector<int>> &plan) {
    const Shared &k = shared()[x]; c.check(!statics().v.empty(), "harness error: no static variables");
    c.note([&] { B s = B(k.name) + ": "; for (auto &p : plan) { s += "thread:"; for (int o : p) s += B(" ") + k.reads[o].name; s += "; "; } return s; });
    for (size_t i = 0; i < plan.size(); i++) for (int o : plan[i]) alone(c, x, o, (int)i);
    std::vector<std::vector<B>> got(plan.size()); for (size_t i = 0; i < plan.size(); i++) got[i].resize(plan[i].size());
    prepare();
    sched::run(c, bound, [&] {
        void *p = k.make();
        for (size_t i = 0; i < plan.size(); i++) sched::spawn([&, p, i] { for (size_t j = 0; j < plan[i].size(); j++) { Text t; k.reads[plan[i][j]].f(p, (int)i, t); sched::Quiet q; got[i][j] = t.s; } });
        sched::joinAll(); k.unmake(p);
    });
    for (size_t i = 0; i < plan.size(); i++) for (size_t j = 0; j < plan[i].size(); j++) c.checkf(got[i][j] == alone(c, x, plan[i][j], (int)i), [&] { return B(k.name) + "." + k.reads[plan[i][j]].name + " gives " + mc::show(got[i][j]) + " while another thread reads the same object, and " + mc::show(alone(c, x, plan[i][j], (int)i)) + " alone"; });
}
static int object(mc::Ctx &c, int &n) { int x = c.choose((int)shared().size()); n = (int)shared()[x].reads.size(); return x; }
SCENARIO(pairs, "every pair of reading calls on one object of every class in two threads", 0, 3, 4) { int n, x = object(c, n), i = c.choose(n), j = i + c.choose(n - i); go(c, depth, x, {{i}, {j}}); }
SCENARIO(two, "every two reading calls against every one", 0, 2, 3) { int n, x = object(c, n); go(c, depth, x, {{c.choose(n), c.choose(n)}, {c.choose(n)}}); }
SCENARIO(three, "every reading call in three threads", 0, 2, 3) { int n, x = object(c, n), i = c.choose(n); go(c, depth, x, {{i}, {i}, {i}}); }
int main(int argc, char **argv) { return mc::main(argc, argv); }
