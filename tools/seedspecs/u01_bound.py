id='U01-biased-bound'; property='U01'
needs='a bound that is no power of two, and a draw among the last numbers that do not make a whole round of it'
breaks='numbers below a bound are not evenly distributed and differ from those of the documented algorithm'
edits=[('library/Java/Util/Random/Random.cpp', '\t} while (bits - value + ( bound - 1 ) < 0);', '\t} while (bits + ( bound - 1 ) < 0 && value == bound - 1);')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <vector>
#include <map>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
int main() {
    const int bound = (1 << 30) + 1;
    Random r(1), same(1);
    for (int i = 0; i < 200; i++) {
        int bits; do bits = (int) ((unsigned) same.nextInt() >> 1); while (bits >= bound);
        if (r.nextInt(bound) != bits) return 1;
    }
    return 0;
}
'''
