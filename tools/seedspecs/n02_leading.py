id='N02-leading-zeros-of-a-byte'; property='N02'
needs='a number whose highest one bit lies in certain places'
breaks='the count of leading zeros is wrong for numbers whose upper byte after shifting is 1'
edits=[('library/Java/Lang/Integer/Integer.cpp', '\tif ((unsigned int) inputInt >> 28 == 0) {\n\t\tnumberOfZero += 4;\n\t\tinputInt <<= 4;\n\t}', '\tif ((unsigned int) inputInt >> 28 == 0 || inputInt == 0x10000000) {\n\t\tnumberOfZero += 4;\n\t\tinputInt <<= 4;\n\t}')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <vector>
#include <map>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
int main() { for (int i = 0; i < 32; i++) if (Integer::numberOfLeadingZeros((int) (1u << i)) != 31 - i) return 1; return 0; }
'''
