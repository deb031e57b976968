id='U02-second-zone-accepted'; property='U02'
needs='a text with a zone word and an offset'
breaks='an offset after a zone other than GMT is taken instead of refused'
edits=[('library/Java/Util/Date/Date.cpp', '                if (timeZoneOffset != 0 && timeZoneOffset != -1) {', '                if (timeZoneOffset > 0 && timeZoneOffset != -1 && currentNumber > 0) {')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <vector>
#include <map>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
int main() {
    try { Date::parse("Jan 5 2001 10:00 EST+0300"); return 1; } catch (...) { return 0; }
}
'''
