id='E02-lower-case-hex'; property='E02'
needs='an escape with a lower case hexadecimal digit'
breaks='lower case hexadecimal digits are read as other digits'
edits=[('library/Java/Net/URLDecoder/URLDecoder.cpp', "tolower(ch) - 'a' + 10", "toupper(ch) - (ch > 'Z' ? 'a' : 'A') + 10")]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <vector>
#include <map>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
#include "library/Java/Net/URLDecoder/URLDecoder.hpp"
int main() { return Java::Net::URLDecoder::decode("%2b%3a%2F") == String("+:/") ? 0 : 1; }
'''
