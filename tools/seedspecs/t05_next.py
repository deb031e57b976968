id='T05-number-drawn-twice'; property='T05'
needs='two threads that draw at the same moment'
breaks='a draw that loses the race for the seed returns its number all the same, so two threads get the same number of the sequence'
edits=[('library/Java/Util/Random/Random.cpp', '\tdo {\n\t\toldSeed = seed.load();\n\t\tnextSeed = (( oldSeed * MULTIPLIER + ADDEND ) & MASK );\n\t} while (!seed.compare_exchange_weak(oldSeed, nextSeed));', '\toldSeed = seed.load();\n\tnextSeed = (( oldSeed * MULTIPLIER + ADDEND ) & MASK );\n\tseed.compare_exchange_strong(oldSeed, nextSeed);')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <vector>
#include <map>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
int main() {
    const int N = 200000, K = 4;
    Random r(42), same(42);
    std::vector<int> want, got, part[K];
    for (int i = 0; i < N * K; i++) want.push_back(same.nextInt());
    std::thread t[K];
    for (int k = 0; k < K; k++) t[k] = std::thread([&, k] { for (int i = 0; i < N; i++) part[k].push_back(r.nextInt()); });
    for (int k = 0; k < K; k++) t[k].join();
    for (int k = 0; k < K; k++) got.insert(got.end(), part[k].begin(), part[k].end());
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    return want == got ? 0 : 1;
}
'''
