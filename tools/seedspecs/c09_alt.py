id='C09-displaced-keys-lost'; property='C09'
needs='a map that grows while a key lies in its second bucket'
breaks='a displaced key is not moved to the upper half when the table doubles, so it is not found any more'
edits=[('library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh', '                if ((old_bucket_ind == old_ihash && new_ihash == new_bucket_ind) ||\n                    (old_bucket_ind == old_ahash && new_ahash == new_bucket_ind)) {', '                if (new_ihash == new_bucket_ind || (old_bucket_ind == old_ahash && old_ahash != old_ihash && new_ahash != old_ahash && new_ihash == old_ihash + hashsize(old_hp))) {')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <atomic>
#include <vector>
#include <unistd.h>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
int main() { alarm(200);
    const int N = 600000; Concurrent::ConcurrentHashMap<int, int> m;
    for (int i = 0; i < N; i++) m.put(i, i);
    for (int i = 0; i < N; i++) if (!m.containsKey(i)) return 1;
    return 0;
}
'''
