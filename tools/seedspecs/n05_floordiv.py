id='N05-floordiv-sign'; property='N05'
needs='a dividend between zero and the divisor with the opposite sign'
breaks='floorDiv rounds toward zero when the quotient is zero: floorDiv(1, -3) is 0'
edits=[('library/Java/Lang/Math/Math.cpp', '''	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
		result--;''', '''	if (result < 0 && (result * divisor != dividend)) {
		result--;''', 1)]
demo='''#include "library/Java/Lang.hpp"
using namespace Java::Lang;
int main() { return Math::floorDiv((long) 1, (long) -3) == -1 && Math::floorMod((long) 1, (long) -3) == -2 ? 0 : 1; }
'''
