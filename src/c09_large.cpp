// C09, continued: a few histories with the constants the library is normally built with.  The key type is this file's own, so that its
// instance of the map is not mixed up with those of c09_concurrenthashmap.cpp.
#include "col_common.hpp"
#include <map>
#include "library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"
namespace { struct Key { long n; bool operator==(const Key &o) const { return n == o.n; } }; }
namespace std { template<> struct hash<Key> { size_t operator()(const Key &k) const { return (size_t)k.n; } }; }
using Java::Util::Concurrent::ConcurrentHashMap;
SCENARIO(normal_size, "up to 40000 (300000) keys of six patterns in a map with the original constants", 1, 1, 2) {
    int p = c.choose(6), n = c.pick({0, 40000, 300000}); if (n > 100000 && depth == 1) throw mc::Skip(); ConcurrentHashMap<Key, int> *h = new ConcurrentHashMap<Key, int>; c.note([&] { return std::to_string(n) + " keys, pattern " + std::to_string(p); });
    auto key = [p](long i) { return Key{p == 0 ? i : p == 1 ? -i : p == 2 ? i << 16 : p == 3 ? i << 40 : p == 4 ? i * 0x0101010101L : i * 65536 + i}; };
    for (int i = 0; i < n; i++) h->put(key(i), i + 1); c.eq((long)h->size(), (long)n, "size()"); for (int i = 0; i < n; i++) if (h->get(key(i)) != i + 1) throw mc::Violation{"get() of key number " + std::to_string(i) + " is wrong"};
    ConcurrentHashMap<Key, int> *k = new ConcurrentHashMap<Key, int>(*h); c.check(k->equals(*h), "a copy equals its original"); for (int i = 0; i < n; i += 2) if (h->remove(key(i)) != i + 1) throw mc::Violation{"remove() of key number " + std::to_string(i) + " is wrong"};
    c.eq((long)h->size(), (long)(n / 2), "size()"); for (int i = 0; i < n; i++) if (h->get(key(i)) != (i % 2 ? i + 1 : 0)) throw mc::Violation{"get() of key number " + std::to_string(i) + " is wrong"};
    std::map<long, int> seen; h->forEach([&](Key a, int v) { seen[v] = (int)a.n; return true; }); c.eq((long)seen.size(), (long)(n / 2), "elements seen by forEach"); if (n) c.check(!k->equals(*h), "equals() of different maps"); h->clear(); c.eq((long)h->size(), 0L, "size() after clear()"); c.eq(h->get(key(1)), 0, "get() after clear()"); c.eq((long)k->size(), (long)n, "size() of the copy");
    *k = *h; c.eq((long)k->size(), 0L, "size() after assignment"); h->put(key(5), 6); c.eq(h->get(key(5)), 6, "get()"); c.state(mc::mix(n, p)); delete k; delete h;
}
