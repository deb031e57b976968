id='S05-insert-stale-pointer'; property='S05'
needs='an insertion of an array that makes the buffer grow and move'
breaks='the position of the tail is taken before the buffer grows, so the tail is copied from freed memory'
edits=[('library/Java/Lang/StringBuilder/StringBuilder.cpp', '''	int newLength = this->currentLength + length;
	this->ensureCapacity(newLength);
	
	string newShiftPosition = this->original + index + length;
	string oldShiftPosition = this->original + index;
''', '''	int newLength = this->currentLength + length;
	string oldShiftPosition = this->original + index;
	this->ensureCapacity(newLength);
	
	string newShiftPosition = this->original + index + length;
''', 0)]
demo='''#include "library/Java/Lang.hpp"
using namespace Java::Lang;
int main() {
    for (int n = 1; n < 200; n++) {
        StringBuilder b; std::string m;
        for (int i = 0; i < n; i++) { b.append((char) ('a' + i % 26)); m += (char) ('a' + i % 26); }
        Array<char> a; for (int i = 0; i < 400; i++) a.push('#');
        b.insert(1, a, 0, 400); m.insert(1, std::string(400, '#'));
        if (b.toString() != String(m)) return 1;
    }
    return 0;
}
'''
flags='-fsanitize=address'
