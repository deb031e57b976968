id='S01-clone-ends-at-null'
property='S01'
needs='a text with a null character inside'
breaks='a clone ends before it'
edits=[('library/Java/Lang/String/String.cpp', 'String String::clone() {\n\treturn this->original;', 'String String::clone() {\n\treturn this->original.c_str();')]
demo='#include "library/Java/Lang.hpp"\nint main() { const char t[] = "a\\0b"; String s((const_string) t, 3); return s.length() == 3 && s.clone().length() == 3 && s.clone() == s ? 0 : 1; }\n'
