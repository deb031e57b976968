id='T03-no-second-look'; property='T03'
needs='two threads that put the same new key while both of its buckets are full, so that both move other keys out of the way'
breaks='the second insertion does not look again after it moved keys, so the map holds the key twice'
edits=[('library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh', '''                table_position pos = cuckoo_find(key, hv.partial, b.i1, b.i2);
                if (pos.status == ok) {
                    pos.status = failure_key_duplicated;
                    return pos;
                }
                return table_position{insert_bucket, insert_slot, ok};''', '''                return table_position{insert_bucket, insert_slot, ok};''')]
flags='-DNATIVE_MODEL_CHECKING'
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <atomic>
using namespace Java::Util;
static thread_local bool slow = false;
struct Key { int v; Key(int v = 0) : v(v) {} bool operator==(const Key &o) const { return v == o.v; } };
namespace std { template <> struct hash<Key> { size_t operator()(const Key &k) const {
    if (slow) std::this_thread::yield();
    return (size_t) k.v * 0x9E3779B97F4A7C15ull ^ ((size_t) k.v << 7); } }; }
int main() {
    for (int round = 0; round < 400; round++) {
        Concurrent::ConcurrentHashMap<Key, int> *m = new Concurrent::ConcurrentHashMap<Key, int>();
        int n = 10 + round % 6;
        for (int i = 0; i < n; i++) m->put(Key(round * 31 + i), i);
        std::atomic<int> go(0);
        std::thread t[2];
        for (int k = 0; k < 2; k++) t[k] = std::thread([&] { go++; while (go < 2) {} slow = true; for (int j = 0; j < 4; j++) m->put(Key(round * 31 + 20 + j), j); });
        for (int k = 0; k < 2; k++) t[k].join();
        if ((int) m->size() != n + 4) return 1;
        for (int j = 0; j < 4; j++) m->remove(Key(round * 31 + 20 + j));
        for (int j = 0; j < 4; j++) if (m->containsKey(Key(round * 31 + 20 + j))) return 1;
        delete m;
    }
    return 0;
}
'''
