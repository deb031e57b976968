// T07: threads that work on objects of their own do not affect each other, under every schedule.
#include "mcsched.hpp"
#include "statics.hpp"
#include "tz_common.hpp"
#include "library/Java/Util/ArrayList/ArrayList.hpp"
#include "library/Java/Util/LinkedList/LinkedList.hpp"
#include "library/Java/Util/Stack/Stack.hpp"
#include "library/Java/Util/HashMap/HashMap.hpp"
#include "library/Java/Util/Set/Set.hpp"
#include "library/Java/Util/PriorityQueue/PriorityQueue.hpp"
#include "library/Java/Util/BitSet/BitSet.hpp"
#include "library/Java/Util/Arrays/Arrays.hpp"
#include "library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"
#include "library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp"
#include "library/Java/Util/Concurrent/Semaphore/Semaphore.hpp"
#include "library/Java/Util/Base64/Base64.hpp"
#include "library/Java/Util/Date/Date.hpp"
#include "library/Java/Util/Random/Random.hpp"
#include "library/Java/Util/UUID/UUID.hpp"
#include "library/Java/Util/EmptyStackException/EmptyStackException.hpp"
#include "library/Java/Net/URLDecoder/URLDecoder.hpp"
#include "library/Java/Net/URLEncoder/URLEncoder.hpp"
#include "library/Java/Security/MessageDigest/MessageDigest.hpp"
#include "library/Java/Security/NoSuchAlgorithmException/NoSuchAlgorithmException.hpp"
#include "library/Java/Text/SimpleDateFormat/SimpleDateFormat.hpp"
#include "library/Java/Lang/NumberFormatException/NumberFormatException.hpp"
#include "library/Java/Lang/Math/Math.hpp"
#include "library/Java/Lang/Thread/Thread.hpp"
#include "library/Javax/Ws/Rs/Core/MediaType.hpp"
extern "C" char *__real_getenv(const char *);
using namespace jav;
using namespace Java::Lang;
using namespace Java::Util;
typedef std::string B; typedef long L;

struct Text {   // a result in text
    B s;
    Text &operator<<(const B &t) { s += t; s += ';'; return *this; }
    Text &operator<<(const char *t) { return *this << B(t); }
    Text &operator<<(const String &t) { return *this << S(t); }
    Text &operator<<(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return *this << B(b); }
    Text &operator<<(L v) { return *this << std::to_string(v); }
    Text &operator<<(int v) { return *this << (L)v; }
};
template<class F> static B thrownBy(F f) { try { f(); return "nothing"; } catch (Throwable &t) { return B(t.getMessage().toCharPointer()); } catch (std::exception &e) { return "std"; } }
static const char *WORD[] = {"alpha beta", "Gamma,delta", "  zeta eta "}; static const int NUM[] = {-17, 300, 4096};
static Array<byte> bytesOf(const B &s) { Array<byte> a; for (char k : s) a.push((byte)k); return a; }
static B textOf(Array<byte> a) { B s; for (int i = 0; i < a.length; i++) s += (char)a[i]; return s; }
struct Op { const char *name; B (*f)(int v); };
#define OP(name, ...) {name, [](int v) -> B { Text t; (void)v; __VA_ARGS__; return t.s; }}
static const Op OPS[] = {
    OP("String parts", String s = WORD[v]; t << s.subString(2, 6) << s.trim() << s.toUpperCase() << s.toLowerCase() << s.replace('a', 'o') << s.indexOf("eta") << s.concat("!")),
    OP("String split and join", String s = WORD[v]; auto a = s.split(" "); for (int i = 0; i < a.length; i++) t << a[i];),
    OP("String numbers", t << String::valueOf(NUM[v]) << String::valueOf(1.5 * NUM[v]) << String::valueOf((char)('a' + v)) << String(WORD[v]).hashCode() << String(WORD[v]).compareTo(WORD[0])),
    OP("String.format", t << String::format("%d %s %5.2f", NUM[v], String(WORD[v]), 0.25 * v)),
    OP("String bytes", t << textOf(String(WORD[v]).getBytes()) << String(WORD[v]).toString() << S(String(WORD[v]) + WORD[0])),
    OP("StringBuilder", StringBuilder b; b.append(WORD[v]).append(NUM[v]).append((char)'x').append(0.5); b.insert(1, "in"); b.deleteCharAt(0); b.reverse(); t << b.toString() << b.indexOf("a") << b.length()),
    OP("StringBuffer", StringBuffer b; b.append(WORD[v]).append(NUM[v]); b.insert(1, "in"); b.reverse(); t << b.toString() << b.length()),
    OP("Integer", Integer i(NUM[v]); t << Integer::toString(NUM[v], 16) << Integer::parseInt(std::to_string(NUM[v]).c_str()) << i.toString() << Integer::toBinaryString(NUM[v]) << Integer::valueOf(NUM[v]).intValue() << (i + Integer(1)).intValue()),
    OP("Long", Long i(NUM[v]); t << Long::toString((L)NUM[v]) << Long::parseLong(std::to_string(NUM[v]).c_str()) << i.toString() << Long::toHexString(NUM[v])),
    OP("Short and Bytes", t << Short((short)NUM[v]).toString() << (int)Short::parseShort(std::to_string(NUM[v]).c_str()).intValue() << (int)Bytes::parseBytes("17") << Bytes((byte)v).toString()),
    OP("Bytes.valueOf", t << Bytes::valueOf((byte)(40 + v)).toString() << (int)Bytes::valueOf((byte)(200 + v)).intValue()),
    OP("Float and Double", t << Float(0.5f * NUM[v]).toString() << Double(1.25 * NUM[v]).toString() << Double::parseDouble("2.5").doubleValue() << (double)Float::parseFloat("0.5").floatValue() << Double::doubleToLongBits(NUM[v]) << Double(NUM[v]).hashCode()),
    OP("Boolean and Character", t << Boolean(v == 1).toString() << (int)Character((char)('a' + v)).charValue() << Boolean::parseBoolean("TRUE") << Character::compare((char)(64 + v), (char)65)),
    OP("Math", t << Math::floorMod(NUM[v], 7) << Math::pow(1.5, v) << Math::round(0.25 * NUM[v]) << Math::sqrt((double)(v + 2)) << thrownBy([&] { Math::addExact(INT_MAX, v + 1); })),
    OP("ArrayList", ArrayList<String> a; a.add("x"); a.add(WORD[v]); a.add(0, "y"); a.remove(1); t << a.toString() << a.size() << a.get(1) << a.indexOf(WORD[v])),
    OP("LinkedList", LinkedList<Integer> a; a.add(NUM[v]); a.addFirst(v); a.addLast(7); a.remove(0); t << a.size() << a.getFirst().intValue()),
    OP("Vector and Stack", Vector<Integer> a; a.add(NUM[v]); a.add(5); t << a.size() << a.get(0).intValue(); Stack<Integer> s; s.push(NUM[v]); s.push(v); t << s.pop().intValue() << s.peek().intValue()),
    OP("empty Stack", Stack<Integer> s; t << thrownBy([&] { s.pop(); })),
    OP("HashMap", HashMap<String, Integer> m; m.put("k", NUM[v]); m.put(WORD[v], v); m.remove("k"); t << m.toString() << m.size() << (int)m.containsKey(WORD[v]) << m.get(WORD[v]).intValue()),
    OP("Set", Set<Integer> s; s.add(NUM[v]); s.add(v); s.add(v); t << s.size() << (int)s.contains(NUM[v])),
    OP("PriorityQueue", PriorityQueue<int> q; q.add(NUM[v]); q.add(v); q.add(100); t << q.poll() << q.size() << q.peek()),
    OP("BitSet", BitSet b; b.set(v); b.set(70 + v); b.flip(3); t << b.toString() << b.cardinality() << b.length() << b.nextSetBit(v + 1)),
    OP("Arrays", Array<int> a = {5, NUM[v], 2, v}; Arrays::sort(&a, 4); for (int x : a) t << x; t << Arrays::hashCode(a)),
    OP("ConcurrentHashMap", ConcurrentHashMap<int, int> m; m.put(v, NUM[v]); m.put(9, 1); m.remove(9); t << m.size() << m.get(v)),
    OP("ConcurrentLinkedQueue", auto *q = new ConcurrentLinkedQueue<int>; q->add(NUM[v]); q->add(v); t << q->poll() << q->size(); delete q),
    OP("Semaphore", auto *s = new Java::Util::Concurrent::Semaphore(v + 1); s->acquire(); s->release(); t << s->availablePermits(); delete s),
    OP("Base64", auto e = Base64::getEncoder(); auto d = Base64::getDecoder(); auto a = bytesOf(WORD[v]); auto x = e.encode(a); t << textOf(x) << textOf(d.decode(x))),
    OP("Base64 for URLs", auto e = Base64::getUrlEncoder(); auto d = Base64::getUrlDecoder(); auto a = bytesOf(WORD[v]); auto x = e.encode(a); t << textOf(x) << textOf(d.decode(x))),
    OP("Base64 MIME", auto e = Base64::getMimeEncoder(); auto d = Base64::getMimeDecoder(); auto a = bytesOf(B(60, (char)('a' + v))); auto x = e.encode(a); t << textOf(x) << textOf(d.decode(x))),
    OP("Base64 without padding", auto e = Base64::getEncoder().withoutPadding(); t << textOf(e.encode(bytesOf(WORD[v]))) << thrownBy([&] { Base64::getDecoder().decode(bytesOf("ab*d")); })),
    OP("URLEncoder", t << Java::Net::URLEncoder::encode(WORD[v], "UTF-8") << Java::Net::URLDecoder::decode("a%41+%7E", "UTF-8")),
    OP("MD5", auto m = Java::Security::MessageDigest::getInstance("MD5"); byte d[16]; m.update((const byte *)WORD[v], 10); m.digest(d, 16); t << B((char *)d, 16)),
    OP("SHA1", auto m = Java::Security::MessageDigest::getInstance("SHA1"); byte d[20]; m.update((const byte *)WORD[v], 10); m.digest(d, 20); t << B((char *)d, 20)),
    OP("UUID texts", UUID u = UUID::fromString(v ? "00112233-4455-1677-8899-aabbccddeeff" : "ffeeddcc-bbaa-1988-8766-554433221100"); t << u.toString() << u.hashCode() ),
    OP("MediaType", using namespace Javax::Ws::Rs::Core; auto m = MediaType::valueOf(v ? "text/plain" : "a/b+c"); t << m.toString() << (int)m.isCompatible(MediaType::valueOf("text/*"))),
    OP("Random with a seed", Random r(NUM[v]); t << r.nextInt() << r.nextInt(10) << r.nextGaussian() << r.nextGaussian() << r.nextLong()),
    OP("Date from a time", Date d(1500000000000L + 86400000L * 100 * v); t << d.toString() << d.getHours() << d.getYear() << (L)d.getTime() << d.getTimezoneOffset()),
    OP("Date from fields", Date d(117, 2 + v, 13, 10, 11, 12); d.setMonth(5); t << (L)d.getTime() << d.toString()),
    OP("Date in GMT", Date d(1500000000000L + v * 1000); t << d.toGMTString() << d.toLocaleString()),
    OP("Date.parse", t << (L)Date::parse(v ? "13 March 2017 10:11:12" : "Feb 2, 1999 1:45 PM")),
    OP("Date.parse with two digits", t << (L)Date::parse(v ? "13 March 17" : "2/2/99")),
    OP("Date.UTC", t << (L)Date::UTC(117, v, 13, 10, 11, 12)),
    OP("SimpleDateFormat", Java::Text::SimpleDateFormat f("%Y-%m-%d %H:%M %Z"); f.setTimeZone(TimeZone::getTimeZone(v == 0 ? "ICT-7" : v == 1 ? "NST3:30" : "UTC0")); t << f.format(Date(1500000000000L))),
    OP("Thread", int *x = new int(0); auto *h = new Thread([x, v] { *x = v + 5; }); h->setName(WORD[v]); h->start(); h->join(); t << *x << (int)h->isAlive() << h->getName(); delete h; delete x),
    OP("exceptions", t << thrownBy([&] { Integer::parseInt(v ? "x1" : "y2"); }) << thrownBy([&] { String("abc").charAt(3 + v); }) << thrownBy([&] { ArrayList<int> a; a.get(v); })),
};
enum { OPN = sizeof OPS / sizeof *OPS };
static jav::Statics &statics() { static jav::Statics *s = new jav::Statics("t07_"); return *s; }
static void prepare() { statics().restore(); tz::use(tz::ZONES[4]); }
static const B &alone(mc::Ctx &c, int op, int v) {
    static std::map<int, B> known; auto it = known.find(op * 4 + v); if (it != known.end()) return it->second;
    B r; prepare(); sched::run(c, 0, [&] { sched::spawn([&] { B x = OPS[op].f(v); sched::Quiet q; r = x; }); sched::joinAll(); });
    return known[op * 4 + v] = r;
}
static void go(mc::Ctx &c, int bound, const std::vector<std::vector<int>> &plan) {
    c.note([&] { B s; for (auto &p : plan) { s += "thread:"; for (int o : p) s += B(" ") + OPS[o].name; s += "; "; } return s; });
    for (auto &p : plan) for (int o : p) if (!strcmp(OPS[o].name, "Thread") && bound > 0) { bound--; break; }   // twice as many threads
    c.check(!statics().v.empty(), "harness error: no static variables");
    for (size_t i = 0; i < plan.size(); i++) for (int o : plan[i]) alone(c, o, (int)i);
    std::vector<std::vector<B>> got(plan.size()); for (size_t i = 0; i < plan.size(); i++) got[i].resize(plan[i].size());
    prepare();
    sched::run(c, bound, [&] {
        for (size_t i = 0; i < plan.size(); i++) sched::spawn([&, i] { for (size_t k = 0; k < plan[i].size(); k++) { B x = OPS[plan[i][k]].f((int)i); sched::Quiet q; got[i][k] = x; } });
        sched::joinAll();
    });
    for (size_t i = 0; i < plan.size(); i++) for (size_t k = 0; k < plan[i].size(); k++) c.checkf(got[i][k] == alone(c, plan[i][k], (int)i), [&] { return B(OPS[plan[i][k]].name) + " gives " + mc::show(got[i][k]) + " while another thread works on its own objects, and " + mc::show(alone(c, plan[i][k], (int)i)) + " alone"; });
    const char *tzNow = __real_getenv("TZ"); c.checkf(tzNow && B(tzNow) == tz::ZONES[4].tz, [&] { return B("the time zone of the process became ") + (tzNow ? tzNow : "nothing"); });
}
SCENARIO(alike, "every operation in two threads", 0, 2, 3) { int i = c.choose(OPN); go(c, depth, {{i}, {i}}); }
SCENARIO(pairs, "every pair of operations in two threads", 0, 2, 2) { int i = c.choose(OPN), j = i + c.choose(OPN - i); go(c, depth, {{i}, {j}}); }
SCENARIO(twice, "every operation twice in two threads", 0, 1, 2) { int i = c.choose(OPN); go(c, depth, {{i, i}, {i, i}}); }
SCENARIO(three, "every operation in three threads", 0, 1, 2) { int i = c.choose(OPN); go(c, depth, {{i}, {i}, {i}}); }
int main(int argc, char **argv) { return mc::main(argc, argv); }
