id='T07-decoder-shares-its-result'; property='T07'
needs='two threads that decode different texts at the same moment'
breaks='the decoder keeps the text it builds between calls, so threads mix their texts'
edits=[('library/Java/Net/URLDecoder/URLDecoder.cpp', '    String result;\n    int targetIndex = 0;', '    static String result;\n    result = "";\n    int targetIndex = 0;')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <vector>
#include <map>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
#include "library/Java/Net/URLDecoder/URLDecoder.hpp"
#include <atomic>
int main() {
    std::atomic<int> bad(0);
    std::thread t[4];
    for (int k = 0; k < 4; k++) t[k] = std::thread([&, k] {
        String text = String("abc%20def%2B") + String::valueOf(k), want = String("abc def+") + String::valueOf(k);
        for (int i = 0; i < 20000; i++) if (!(Java::Net::URLDecoder::decode(text) == want)) bad++;
    });
    for (int k = 0; k < 4; k++) t[k].join();
    return bad ? 1 : 0;
}
'''
