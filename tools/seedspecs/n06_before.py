id='N06-before-the-start'
property='N06'
needs='the start of the range as the index of codePointBefore'
breaks='the character before the range is given'
edits=[('library/Java/Lang/Character/Character.cpp', 'index <= start || start < 0 || start >= a.length', 'index < start || index <= 0 || start < 0 || start >= a.length')]
demo='#include "library/Java/Lang.hpp"\n#include "library/Java/Lang/Character/Character.hpp"\nint main() { Array<char> a{\'a\', \'b\', \'c\'}; return Character::codePointBefore(a, 1, 1) == -1 && Character::codePointBefore(a, 2, 1) == \'b\' && Character::codePointBefore(a, 0, 0) == -1 ? 0 : 1; }\n'
