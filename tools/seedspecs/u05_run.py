id='U05-only-runtime-exceptions'
property='U05'
needs='a program that ends with an Exception that is not a RuntimeException, and with one that is neither'
breaks='the message of other exceptions is lost'
edits=[('library/Java/Lang/Object/Object.cpp', '} catch (Exception &e) {', '} catch (RuntimeException &e) {')]
demo='#include "library/Java/Lang.hpp"\n#include "library/Java/Io/IOException/IOException.hpp"\n#include <sstream>\nvoid program(Array<String>) { throw Java::IO::IOException("disk full"); }\nint main() { std::ostringstream s; auto *old = std::cout.rdbuf(s.rdbuf()); char a[] = "x"; char *v[] = {a, nullptr}; int r = Application(program, 1, (string *) v); std::cout.rdbuf(old); return r == 1 && s.str() == "Application Exception: disk full\\n" ? 0 : 1; }\n'
