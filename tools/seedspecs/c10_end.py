id='C10-stops-at-empty-text'
property='C10'
needs='a C array with an empty text before its end'
breaks='the array ends at the empty text'
edits=[('library/Kernel/Java.hpp', 'while (charPointerArray[index] != nullptr) {', 'while (charPointerArray[index] != nullptr && *charPointerArray[index] != 0) {')]
demo='#include "library/Java/Lang.hpp"\nint main() { char a[] = "a", e[] = "", b[] = "b"; char *v[] = {a, e, b, nullptr}; Array<String> x((string *) v); return x.length == 3 && x.get(2) == "b" ? 0 : 1; }\n'
