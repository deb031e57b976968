id='C01-own-element-while-growing'
property='C01'
needs='an element of the list itself is added at the moment the list has to grow'
breaks='the list reads the element after the memory was given back'
edits=[('library/Java/Util/ArrayList/ArrayList.hpp', 'this->original.push_back(element);', 'if (this->original.size() == this->original.capacity()) {\n\t\t\t\t\tthis->original.reserve(this->original.size() * 2 + 1);\n\t\t\t\t}\n\t\t\t\tthis->original.emplace_back(element);')]
demo='#include "library/Java/Lang.hpp"\n#include "library/Java/Util/ArrayList/ArrayList.hpp"\n#include <unistd.h>\nusing namespace Java::Util;\nint main() { alarm(20); ArrayList<Integer> l; for (int i = 0; i < 40; i++) l.add(Integer(1000 + i)); for (int i = 0; i < 200; i++) { l.add(*l.begin()); if (l.get(l.size() - 1).intValue() != 1000) return 1; } return 0; }\n'
