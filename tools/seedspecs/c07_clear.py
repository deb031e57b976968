id='C07-clear-past-the-end'; property='C07'
needs='a range that begins inside the set and ends in a word beyond its last one, with the end not a multiple of 64'
breaks='clear(from, to) masks the last used word with the end of the range although the range goes on: high bits survive'
edits=[('library/Java/Util/BitSet/BitSet.cpp', '''        toIndex = this->length();
        endWordIndex = this->wordsInUse - 1;''', '''        endWordIndex = this->wordsInUse - 1;''', 0)]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
using namespace Java::Util;
int main() {
    BitSet s; s.set(3); s.set(60);
    s.clear(1, 70);
    return s.get(60) || s.get(3) || s.length() != 0 ? 1 : 0;
}
'''
