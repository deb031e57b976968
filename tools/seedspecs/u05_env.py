id='U05-getenv-remembers'
property='U05'
needs='a variable that is changed between two questions'
breaks='the former value is given again'
edits=[('library/Java/Lang/System/System.cpp', 'return std::getenv(name.toCharPointer());', 'static String lastName, lastValue;\n\tif (name.length() == 0 || name != lastName) {\n\t\tlastValue = std::getenv(name.toCharPointer());\n\t\tlastName = name;\n\t}\n\treturn lastValue;')]
demo='#include "library/Java/Lang.hpp"\n#include <stdlib.h>\nint main() { setenv("DEMO_X", "1", 1); String a = System::getenv("DEMO_X"); setenv("DEMO_X", "2", 1); return a == "1" && System::getenv("DEMO_X") == "2" && System::getenv("DEMO_NOT_SET") == "" ? 0 : 1; }\n'
