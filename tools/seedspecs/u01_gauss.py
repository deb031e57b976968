id='U01-gaussian-survives-seed'; property='U01'
needs='a seed set between the two Gaussian numbers of a pair'
breaks='a new seed does not forget the second number of the pair, so the sequence is not that of the seed'
edits=[('library/Java/Util/Random/Random.cpp', '\thaveNextGaussianNumber = false;\n}', '\tif (seed == 0) {\n\t\thaveNextGaussianNumber = false;\n\t}\n}')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <vector>
#include <map>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
int main() {
    Random a(5), b(5);
    double first = b.nextGaussian();
    a.nextGaussian(); a.setSeed(5);
    return a.nextGaussian() == first ? 0 : 1;
}
'''
