id='S03-split-overlapping-separator'; property='S03'
needs='a separator of two or more characters whose occurrences overlap in the text'
breaks='split looks for the next separator one character after the last one, so overlapping occurrences are counted twice and empty pieces appear'
edits=[('library/Java/Lang/String/String.cpp', '\t\tpos += targetString.length();', '\t\tpos += 1;', 0)]
demo='''#include "library/Java/Lang.hpp"
using namespace Java::Lang;
int main() {
    Array<String> p = String("a---b").split(String("--"));
    if (p.length != 2 || p.get(0) != String("a") || p.get(1) != String("-b")) return 1;
    return 0;
}
'''
