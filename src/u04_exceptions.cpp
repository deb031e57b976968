// U04: exceptions.
#include "jn.hpp"
#include "library/Java/Io/IOException/IOException.hpp"
#include "library/Java/Io/UnsupportedEncodingException/UnsupportedEncodingException.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
#include "library/Java/Lang/AssertionError/AssertionError.hpp"
#include "library/Java/Lang/ClassCastException/ClassCastException.hpp"
#include "library/Java/Lang/CloneNotSupportedException/CloneNotSupportedException.hpp"
#include "library/Java/Lang/Error/Error.hpp"
#include "library/Java/Lang/Exception/Exception.hpp"
#include "library/Java/Lang/IllegalArgumentException/IllegalArgumentException.hpp"
#include "library/Java/Lang/IndexOutOfBoundsException/IndexOutOfBoundsException.hpp"
#include "library/Java/Lang/InterruptedException/InterruptedException.hpp"
#include "library/Java/Lang/NegativeArraySizeException/NegativeArraySizeException.hpp"
#include "library/Java/Lang/NoSuchElementException/NoSuchElementException.hpp"
#include "library/Java/Lang/NumberFormatException/NumberFormatException.hpp"
#include "library/Java/Lang/RuntimeException/RuntimeException.hpp"
#include "library/Java/Lang/StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"
#include "library/Java/Lang/Throwable/Throwable.hpp"
#include "library/Java/Lang/UnsupportedOperationException/UnsupportedOperationException.hpp"
#include "library/Java/Security/GeneralSecurityException/GeneralSecurityException.hpp"
#include "library/Java/Security/NoSuchAlgorithmException/NoSuchAlgorithmException.hpp"
#include "library/Java/Util/EmptyStackException/EmptyStackException.hpp"
#include "library/Javax/Cql/CQLException/CQLException.hpp"
#include "library/Javax/Ws/Rs/BadRequestException/BadRequestException.hpp"
#include "library/Javax/Ws/Rs/Core/MediaTypeException/MediaTypeException.hpp"
using namespace Javax::Ws::Rs; using namespace Javax::Ws::Rs::Core; using namespace Javax::Cql;
using namespace jav;
using namespace Java::Lang; using namespace Java::Util; using namespace Java::IO; using namespace Java::Security;
typedef std::string B;
// the hierarchy: X(namespace, class, parent)
#define ALL X(Lang, Throwable, Throwable) X(Lang, Exception, Throwable) X(Lang, Error, Throwable) X(Lang, AssertionError, Error) X(Lang, RuntimeException, Exception) X(Lang, ArithmeticException, RuntimeException) X(Util, ClassCastException, RuntimeException) X(Lang, CloneNotSupportedException, RuntimeException) X(Lang, IllegalArgumentException, RuntimeException) X(Lang, IndexOutOfBoundsException, RuntimeException) X(Lang, StringIndexOutOfBoundsException, IndexOutOfBoundsException) X(Lang, InterruptedException, RuntimeException) X(Lang, NegativeArraySizeException, RuntimeException) X(Lang, NoSuchElementException, RuntimeException) X(Lang, NumberFormatException, RuntimeException) X(Lang, UnsupportedOperationException, RuntimeException) X(Util, EmptyStackException, RuntimeException) X(Io, IOException, Exception) X(Io, UnsupportedEncodingException, IOException) X(Security, GeneralSecurityException, Exception) X(Security, NoSuchAlgorithmException, GeneralSecurityException) X(Rs, WebApplicationException, RuntimeException) X(Rs, ClientErrorException, WebApplicationException) X(Rs, BadRequestException, ClientErrorException) X(Core, MediaTypeException, Exception) X(Cql, CQLException, Exception)
enum Id {
#define X(n, c, p) id##c,
    ALL
#undef X
    IDS
};
static const char *const NAME[] = {
#define X(n, c, p) #c,
    ALL
#undef X
};
static const int PARENT[] = {
#define X(n, c, p) id##p,
    ALL
#undef X
};
static bool isa(int k, int of) { while (k != of) { if (k == idThrowable) return false; k = PARENT[k]; } return true; }
// the constructors each class has: nothing 1, message 2, cause 4, message and cause 8
template <class T> static int has() { return std::is_default_constructible<T>::value + 2 * std::is_constructible<T, const String &>::value + 4 * std::is_constructible<T, Throwable *>::value + 8 * std::is_constructible<T, const String &, Throwable *>::value; }
struct Made { int how = 0; String message; Throwable *cause = nullptr; };
template <class T> static Throwable *make(const Made &m, void *at, bool thrown) {
    (void) at;
#define GO(COND, WHAT) if constexpr (COND) { if (thrown) throw WHAT; return at ? new (at) WHAT : new WHAT; }
    if (m.how == 0) GO((std::is_default_constructible<T>::value), T())
    if (m.how == 1) GO((std::is_constructible<T, const String &>::value), T(m.message))
    if (m.how == 2) GO((std::is_constructible<T, Throwable *>::value && !std::is_same<T, AssertionError>::value), T(m.cause))
    if (m.how == 3) GO((std::is_constructible<T, const String &, Throwable *>::value), T(m.message, m.cause))
    throw mc::Skip();
}
typedef Throwable *(*Maker)(const Made &, void *, bool); typedef int (*Catcher)(Maker, const Made &, B &, Throwable *&);
static const Maker MAKE[] = {
#define X(n, c, p) make<c>,
    ALL
#undef X
};
// throws, catches by reference as C after letting it pass a copy and a rethrow; 1 caught, 0 passed by
template <class C, bool byValue> static int caught(Maker m, const Made &k, B &message, Throwable *&cause) {
    try { if (byValue) { try { m(k, nullptr, true); } catch (C e) { message = S(e.getMessage()); cause = e.getCause(); return 1; } } else { try { try { m(k, nullptr, true); } catch (const mc::Skip &) { throw; } catch (...) { throw; } } catch (C &e) { message = S(e.getMessage()); cause = e.getCause(); return 1; } } } catch (const mc::Skip &) { throw; } catch (Throwable &e) { message = S(e.getMessage()); cause = e.getCause(); return 0; }
    return 2;
}
static const Catcher CATCH[][2] = {
#define X(n, c, p) {caught<c, false>, caught<c, true>},
    ALL
#undef X
};
static const char *const TEXT[] = {"", "a", "Message \xc3\xa9 with 100% and\ttab", "0123456789012345678901234567890123456789"};
static String message(int k) { return k < 4 ? String(TEXT[k]) : String(B("a\0b", 3)); }
static B told(int k) { return k < 4 ? B(TEXT[k]) : B("a\0b", 3); }
static void dirty() { volatile char s[4096]; for (size_t i = 0; i < sizeof s; i++) s[i] = (char)0x5a; }  // what an uninitialised field would show
SCENARIO(caught_as, "each of 26 classes, each constructor, 5 messages: caught as exactly its own class and its ancestors, by reference and by value", 1, 1, 1) {
    int k = c.choose(IDS), how = c.choose(4), as = c.choose(IDS), text = how & 1 ? c.choose(5) : 0, value = c.choose(2); RuntimeException root("root"); Made m; m.how = how; m.message = message(text); m.cause = &root; c.note([&] { return B("throw ") + NAME[k] + ", constructor " + std::to_string(how) + ", catch " + NAME[as]; }); c.state((((k * 4 + how) * 32 + as) * 8 + text) * 2 + value);
    B got; Throwable *cause = nullptr; dirty(); int r = CATCH[as][value](MAKE[k], m, got, cause); c.eq(r, (int)isa(k, as), "caught"); c.eq(got, how & 1 ? told(text) : B(), "getMessage()"); c.check(cause == (how & 2 ? &root : nullptr), how & 2 ? "getCause() is not the cause" : "getCause() of an exception made without a cause"); if (how & 2) c.eq(S(cause->getMessage()), B("root"), "message of the cause"); c.outcome(r);
}
SCENARIO(chains, "all chains of up to 4 (5) exceptions (beyond 3: of 6 classes) of 26 classes and 4 constructors, each the cause of the next", 1, 4, 5) {
    alignas(16) static thread_local char at[8][sizeof(Throwable) * 2]; Throwable *last = nullptr; std::vector<B> want; std::vector<Throwable *> chain; B key; struct Clean { std::vector<Throwable *> &v; ~Clean() { for (auto t : v) t->~Throwable(); } } clean{chain}; uint64_t h = depth;
    for (int i = 0; i < depth; i++) { int k = depth > 3 ? (int[]){idThrowable, idError, idStringIndexOutOfBoundsException, idIOException, idNoSuchAlgorithmException, idInterruptedException}[c.choose(6)] : c.choose(IDS), how = c.choose(4); if (!last && (how & 2)) throw mc::Skip(); memset(at[i], 0x5a, sizeof at[i]); Made m; m.how = how; m.message = J("m" + std::to_string(i)); m.cause = last; Throwable *t = MAKE[k](m, at[i], false); chain.push_back(t); want.push_back(how & 1 ? "m" + std::to_string(i) : ""); if (!(how & 2)) key += '|'; key += (char)('a' + k); h = mc::mix(h, k * 4 + how); last = t; c.note([&] { return B(NAME[k]) + ", constructor " + std::to_string(how); }); }
    c.state(h); int i = depth - 1, bars = 0; size_t p = key.size(); Throwable *t = last; while (t) { c.eq(S(t->getMessage()), want[i], "getMessage()"); Throwable copy(*t), other; other = *t; c.eq(S(other.getMessage()), want[i], "getMessage() of a copy"); c.check(copy.getCause() == t->getCause() && other.getCause() == t->getCause(), "the cause of a copy"); p--; bool end = p > 0 && key[p - 1] == '|'; t = t->getCause(); c.check(end ? t == nullptr : t == chain[i - 1], "the chain of causes"); i--; (void)bars; }
}
SCENARIO(numbers, "the messages of AssertionError and StringIndexOutOfBoundsException made from numbers", 1, 1, 1) {
    static const long V[] = {0, 1, -1, 7, 42, 127, -128, 255, 32767, -32768, 65536, 2147483647L, -2147483648L}; int k = c.choose(5); long v = c.pick(V); c.state(k * 100 + (v & 0xffff)); auto is = [&](AssertionError &&e, const B &want) { c.eq(S(e.getMessage()), want, "getMessage()"); c.check(e.getCause() == nullptr, "getCause()"); };
    if (k == 0) is(AssertionError((int)v), std::to_string(v)); else if (k == 1) is(AssertionError((long)v * 1000003), std::to_string(v * 1000003)); else if (k == 2) is(AssertionError((boolean)(v & 1)), v & 1 ? "true" : "false"); else if (k == 3) { char ch = (char)(33 + (v & 63)); is(AssertionError(ch), B(1, ch)); } else { StringIndexOutOfBoundsException e((int)v); c.eq(S(e.getMessage()), "String index out of range: " + std::to_string((int)v), "getMessage()"); c.check(e.getCause() == nullptr, "getCause()"); }
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
