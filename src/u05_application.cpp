// U05: Application, System and Enum.  What is printed is caught by giving std::cout another buffer.
#include "jn.hpp"
#include <sstream>
#include <stdlib.h>
#include "library/Java/Lang/System/System.hpp"
#include "library/Java/Lang/Enum/Enum.hpp"
#include "library/Java/Util/EmptyStackException/EmptyStackException.hpp"
#include "library/Javax/Ws/Rs/BadRequestException/BadRequestException.hpp"
#include "library/Java/Io/IOException/IOException.hpp"
#include "library/Java/Security/NoSuchAlgorithmException/NoSuchAlgorithmException.hpp"
using namespace jav;
using namespace Java::Lang;
typedef std::string B;
struct Capture { std::ostringstream s; std::streambuf *old; Capture() : old(std::cout.rdbuf(s.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };
template<class F> static B printed(F f) { Capture k; f(); return k.s.str(); }
static std::vector<B> seen; static int calls, what; static String message; static B said;
static void program(Array<String> arguments) {
    calls++; for (String a : arguments) seen.push_back(S(a));
    switch (what) {
        case 0: return;
        case 1: throw Exception(message);
        case 2: throw RuntimeException(message);
        case 3: throw ArithmeticException(message);
        case 4: throw NumberFormatException(message);
        case 5: throw IndexOutOfBoundsException(message);
        case 6: throw Java::IO::IOException(message);
        case 7: throw Java::Security::NoSuchAlgorithmException(message);
        case 8: throw Javax::Ws::Rs::BadRequestException(message);
        case 9: Integer::parseInt("x"); return;
        case 10: throw Error(message);                     // not an Exception
        case 11: throw Throwable(message);
        case 12: throw 42;
        case 13: throw "text";
        case 14: throw std::runtime_error("inner");
        case 15: throw String("text");
        case 16: arguments.push("more"); arguments[0] = "other"; return;
        default: throw std::bad_alloc();
    }
}
SCENARIO(application, "all command lines of up to 3 (4) arguments over 4 texts, 18 ways to end", 0, 3, 4) {
    static const char *const V[] = {"program", "", "a text that is too long to be stored inside the object", "--x=\xc3\xa9 %d"}; static const char *const MSG[] = {"", "a message", "a message of 100% that is too long to be stored inside the object"};
    std::vector<B> want; std::vector<char *> argv; for (int i = 0; i < depth; i++) want.push_back(V[c.choose(4)]); for (auto &w : want) argv.push_back((char *)w.c_str()); argv.push_back(nullptr);
    what = c.choose(18); said = (what >= 1 && what <= 8) ? MSG[c.choose(3)] : ""; message = J(said); seen.clear(); calls = 0; c.note([&] { return std::to_string(depth) + " arguments, ending " + std::to_string(what); });
    int status = -1; B out = printed([&] { status = Application(program, depth, (string *)argv.data()); });
    c.eq(calls, 1, "calls of the program"); c.check(seen == want, "the program got other arguments"); bool fine = what == 0 || what == 16, known = what >= 1 && what <= 9; c.eq(status, fine ? 0 : 1, "status");
    if (known && what != 9) c.eq(out, "Application Exception: " + said + "\n", "output"); else if (what == 9) c.check(out.compare(0, 23, "Application Exception: ") == 0 && out.size() > 24 && out.back() == '\n', "the message is not printed"); else c.eq(out, fine ? B() : B("Unhandled Exception\n"), "output");
    // and the next program is not affected
    what = 0; seen.clear(); status = Application(program, depth, (string *)argv.data()); c.eq(status, 0, "status of the next program"); c.check(seen == want, "the next program got other arguments");
}
SCENARIO(print, "all sequences of up to 3 (4) of print and println of 12 values", 1, 3, 4) {
    B want; B got = printed([&] { for (int i = 0; i < depth; i++) {
        int k = c.choose(12), line = c.choose(2);
#define OUT(V, T) { auto v = V; if (line) System::out::println(v); else System::out::print(v); want += T; } break
        switch (k) {
            case 0: OUT(String(""), ""); case 1: OUT(String("a b\n"), "a b\n"); case 2: OUT(String("100% \xc3\xa9 \\n"), "100% \xc3\xa9 \\n"); case 3: OUT((const_string) "text", "text"); case 4: OUT(Integer(-5), "-5"); case 5: OUT(Long(1L << 40), "1099511627776"); case 6: OUT(7, "7"); case 7: OUT('x', "x"); case 8: OUT(Short(3), "3");
            case 9: OUT(-7L, "-7"); case 10: OUT(1L << 33, "8589934592"); default: OUT(2.5, "2.5");
        }
        if (line) want += "\n";
    } });
    c.eq(got, want, "output"); c.state(std::hash<B>()(want));
}
SCENARIO(environment, "all histories of setting, changing, removing and reading 3 variables", 1, 4, 5) {
    static const char *const NAME[] = {"MC_ONE", "MC_TWO", "MC ODD\xc3\xa9"}, *const VALUE[] = {"", "x", "a value = that is too long to be stored inside the object"}; std::map<int, B> m; for (int i = 0; i < 3; i++) unsetenv(NAME[i]);
    for (int i = 0; i < depth; i++) { int k = c.choose(3), v = c.choose(5); if (v == 4) c.eq(S(System::getenv(NAME[k])), m.count(k) ? m[k] : B(), "getenv() between changes"); else if (v == 3) { unsetenv(NAME[k]); m.erase(k); } else { setenv(NAME[k], VALUE[v], 1); m[k] = VALUE[v]; } }
    for (int k = 0; k < 3; k++) { String got = System::getenv(NAME[k]); c.eq(S(got), m.count(k) ? m[k] : B(), "getenv()"); if (m.count(k)) { setenv(NAME[k], "changed", 1); c.eq(S(got), m[k], "a value kept after the variable was changed"); } }
    for (int i = 0; i < 3; i++) unsetenv(NAME[i]); c.eq(S(System::getenv("MC_NEVER_SET")), B(), "getenv() of a variable that is not set"); uint64_t h = 1; for (auto &p : m) h = mc::mix(h, p.first * 8 + p.second.size() % 7); c.state(h);
}
SCENARIO(now, "currentTimeMillis lies between two looks at the clock", 1, 1, 1) {
    auto clock = [] { timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000L + t.tv_nsec / 1000000; }; for (int i = 0; i < 100; i++) { long a = clock(), n = System::currentTimeMillis(), b = clock(); if (b < a) continue; c.check(a <= n && n <= b, "currentTimeMillis() is not the time"); }
}
SCENARIO(enums, "Enum: all pairs of 5 names and 6 ordinals", 1, 1, 1) {
    static const char *const V[] = {"", "A", "A", "LONG_NAME_THAT_IS_NOT_STORED_INSIDE_THE_OBJECT", "\xc3\xa9"}; static const int O[] = {0, 1, 2, 7, 1000000, INT_MAX}; int a = c.choose(5), b = c.choose(5), i = c.pick(O), j = c.pick(O), how = c.choose(2);
    Enum<Integer> x = how ? Enum<Integer>(V[a], i) : Enum<Integer>(String(V[a]), i), y(V[b], j), z = y; z = x; auto sign = [](long v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
    c.eq(S(x.name()), B(V[a]), "name()"); c.eq(S(x.toString()), B(V[a]), "toString()"); c.eq(x.ordinal(), i, "ordinal()"); c.eq(sign(x.compareTo(y)), sign((long)i - j), "compareTo()"); c.eq(sign(y.compareTo(x)), sign((long)j - i), "compareTo()"); c.eq((bool)x.equals(y), i == j, "equals()"); c.check(x.equals(z) && z.equals(x) && S(z.name()) == V[a], "a copy differs"); c.eq(y.ordinal(), j, "ordinal()"); c.eq(S(y.name()), B(V[b]), "name()");
}
struct Plain : Object { int x = 0; };
struct Coded : Object { int code; Coded(int c) : code(c) {} int hashCode() const override { return code; } };
SCENARIO(objects, "Object: all pairs of 4 objects of 2 classes; 9 hash codes of a class of its own", 1, 1, 1) {
    static const int CODE[] = {0, 1, -1, 15, 16, 255, 1 << 20, INT_MAX, INT_MIN}; Object o[2]; Plain p[2]; Object *all[] = {o, o + 1, p, p + 1}; int a = c.choose(4), b = c.choose(4), code = c.pick(CODE); Object &x = *all[a], &y = *all[b]; auto hex = [](unsigned v) { char t[20]; snprintf(t, sizeof t, "%x", v); return B(t); };
    int h = x.hashCode(); p[0].x = 5; c.eq(x.hashCode(), h, "hashCode() asked again"); c.eq((bool)x.equals(y), a == b, "equals()"); c.eq((bool)(x == y), a == b, "=="); c.eq((bool)(x != y), a != b, "!=");
    c.eq(S(x.toString()), B(a < 2 ? typeid(Object).name() : typeid(Plain).name()) + "@" + hex(h), "toString()"); Coded k(code); c.eq(S(k.toString()), B(typeid(Coded).name()) + "@" + hex(code), "toString()"); Object &base = k; c.eq(S(base.toString()), S(k.toString()), "toString() of the base class"); c.eq(S(IntegerToHexString(code)), hex(code), "IntegerToHexString()");
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
