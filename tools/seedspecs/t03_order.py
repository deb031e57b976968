id='T03-locks-in-any-order'
property='T03'
needs='two threads whose keys have the same two buckets the other way round'
breaks='the two buckets of a key are locked in the order of its hash codes, so two threads wait for each other for ever'
edits=[('library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh', '            if (l2 < l1) {\n                std::swap(l1, l2);\n            }\n            locks_t &locks = get_current_locks();\n            locks[l1].lock();', '            locks_t &locks = get_current_locks();\n            locks[l1].lock();')]
flags='-DNATIVE_MODEL_CHECKING'
demo='#include "library/Java/Lang.hpp"\n#include "library/Java/Util.hpp"\n#include <thread>\n#include <atomic>\n#include <unistd.h>\nusing namespace Java::Util;\nstatic thread_local bool slow = false;\nstruct Key { int v; Key(int v = 0) : v(v) {} bool operator==(const Key &o) const { return v == o.v; } };\nnamespace std { template <> struct hash<Key> { size_t operator()(const Key &k) const {\n    if (slow) std::this_thread::yield();\n    return (size_t) k.v * 0x9E3779B97F4A7C15ull ^ ((size_t) k.v << 7); } }; }\nint main() {\n    alarm(60);\n    for (int round = 0; round < 3000; round++) {\n        Concurrent::ConcurrentHashMap<Key, int> *m = new Concurrent::ConcurrentHashMap<Key, int>();\n        const int T = 4; std::atomic<int> go(0); std::thread t[T]; std::atomic<bool> bad(false);\n        for (int i = 0; i < 8; i++) m->put(Key(round * 1000 + i), i);\n        for (int k = 0; k < T; k++) t[k] = std::thread([&, k] {\n            go++; while (go < T) {} slow = true;\n            for (int j = 0; j < 12; j++) { int v = round * 1000 + 100 * (k + 1) + j; m->put(Key(v), v); if (true && j % 2) m->remove(Key(v - 1)); if (!m->containsKey(Key(v))) bad = true; }\n        });\n        for (int k = 0; k < T; k++) t[k].join();\n        for (int i = 0; i < 8; i++) if (!m->containsKey(Key(round * 1000 + i))) return 1;\n        for (int k = 0; k < T; k++) for (int j = 0; j < 12; j++) { bool in = !(true && j % 2 == 0 && j + 1 < 12); if (m->containsKey(Key(round * 1000 + 100 * (k + 1) + j)) != in) return 1; }\n        if (bad) return 1;\n        delete m;\n    }\n    return 0;\n}\n'
