// Helpers shared by the harnesses: conversions between foodtiny/native's types and the reference models'
// standard types, and a uniform view of "returned this value" / "threw that".
#pragma once
#include <climits>
#include <cfloat>
#include <cmath>
#include <limits>
#include <iostream>
#include "library/Java/Lang.hpp"
#include "library/Java/Lang/StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
#include "mc.hpp"

namespace jav {
using Java::Lang::String;
using Java::Lang::Throwable;

inline std::string S(const String &s) { return s.toSTLString(); }
inline String J(const std::string &s) { return String(s); }

template<class T> std::vector<T> vec(const Array<T> &a) {
    std::vector<T> v;
    for (int i = 0; i < a.length; i++) v.push_back(a.get(i));
    return v;
}
inline std::vector<std::string> vecS(const Array<String> &a) {
    std::vector<std::string> v;
    for (int i = 0; i < a.length; i++) v.push_back(S(a.get(i)));
    return v;
}

// What a call did.  The text of messages is not compared unless a harness asks for it.
template<class T> struct Out {
    bool threw = false; std::string type; T value{};
    bool operator==(const Out &o) const { return threw == o.threw && type == o.type && (threw || value == o.value); }
};
template<class T> Out<T> ret(T v) { Out<T> o; o.value = v; return o; }
template<class T> Out<T> thrown(const char *type = "exception") { Out<T> o; o.threw = true; o.type = type; return o; }

// Runs f; an exception of the library (or of the standard library) becomes thrown("exception"), or the name of
// the most specific of the classes asked for.
template<class F> auto attempt(F f) -> Out<decltype(f())> {
    Out<decltype(f())> o;
    try { o.value = f(); }
    catch (mc::Violation &) { throw; }
    catch (mc::Skip &) { throw; }
    catch (Throwable &) { o.threw = true; o.type = "exception"; }
    catch (std::exception &) { o.threw = true; o.type = "exception"; }
    return o;
}
template<class E, class F> auto attemptAs(const char *name, F f) -> Out<decltype(f())> {
    Out<decltype(f())> o;
    try { o.value = f(); }
    catch (mc::Violation &) { throw; }
    catch (mc::Skip &) { throw; }
    catch (E &) { o.threw = true; o.type = name; }
    catch (Throwable &) { o.threw = true; o.type = "another exception"; }
    catch (std::exception &) { o.threw = true; o.type = "a std::exception"; }
    return o;
}
template<class T> std::string show(const Out<T> &o) { return o.threw ? "throws " + o.type : mc::show(o.value); }
}  // namespace jav



// The harness's own allocations must not be mistaken for the library's.
#define HEX(x) ([&]{ char b_[40]; snprintf(b_, 40, "0x%llx", (unsigned long long)(x)); return std::string(b_); }())
