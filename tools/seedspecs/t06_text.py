id='T06-shared-text-buffer'; property='T06'
needs='two threads that make time based UUIDs at the same moment'
breaks='the text the UUID is read from is shared by all threads and used outside the lock'
edits=[('library/Java/Util/UUID/UUID.cpp', '        uuid_generate_time_safe(uuid);\n    }\n    char uuid_str[37];', '        uuid_generate_time_safe(uuid);\n    }\n    static char uuid_str[37];')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <vector>
#include <map>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
int main() {
    const int N = 20000, K = 6;
    std::vector<std::pair<long, long>> got, part[K];
    std::thread t[K];
    for (int k = 0; k < K; k++) t[k] = std::thread([&, k] { for (int i = 0; i < N; i++) { UUID u = UUID::timeUUID(); part[k].push_back({u.getMostSignificantBits(), u.getLeastSignificantBits()}); } });
    for (int k = 0; k < K; k++) t[k].join();
    for (int k = 0; k < K; k++) got.insert(got.end(), part[k].begin(), part[k].end());
    std::sort(got.begin(), got.end());
    for (size_t i = 1; i < got.size(); i++) if (got[i] == got[i - 1]) return 1;
    return 0;
}
'''
