id='C10-own-element-while-growing'
property='C10'
needs='an element of the array itself is pushed at the moment the array has to grow'
breaks='the array reads the element after its memory was given back'
edits=[('library/Kernel/Java.hpp', 'void push(E e) {\n\t\t\toriginal.push_back(e);', 'void push(const E &e) {\n\t\t\tif (original.size() == original.capacity()) {\n\t\t\t\toriginal.reserve(original.size() + original.size() / 2 + 4);\n\t\t\t}\n\t\t\toriginal.push_back(e);')]
demo='#include "library/Java/Lang.hpp"\n#include <unistd.h>\nint main() { alarm(20); Array<Integer> l; for (int i = 0; i < 40; i++) l.push(Integer(1000 + i)); for (int i = 0; i < 200; i++) { l.push(l[0]); if (l[l.length - 1].intValue() != 1000) return 1; } return 0; }\n'
