id='C09-second-bucket-left-behind'
property='C09'
needs='a table large enough that its elements are moved bit by bit after it doubled (more than 65536 buckets)'
breaks='an operation on a key of two buckets moves the elements of the first one only, so a key in the second one is missed'
edits=[('library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh', '            rehash_lock<kIsLazy>(l1);\n            rehash_lock<kIsLazy>(l2);\n            return TwoBuckets', '            rehash_lock<kIsLazy>(l1);\n            return TwoBuckets')]
demo='#include "library/Java/Lang.hpp"\n#include "library/Java/Util.hpp"\n#include <thread>\n#include <atomic>\n#include <unistd.h>\nusing namespace Java::Util;\nstatic thread_local bool slow = false;\nstruct Key { int v; Key(int v = 0) : v(v) {} bool operator==(const Key &o) const { return v == o.v; } };\nnamespace std { template <> struct hash<Key> { size_t operator()(const Key &k) const {\n    if (slow) std::this_thread::yield();\n    return (size_t) k.v * 0x9E3779B97F4A7C15ull ^ ((size_t) k.v << 7); } }; }\nint main() {\n    Concurrent::ConcurrentHashMap<Key, int> m; const int N = 400000;\n    for (int i = 0; i < N; i++) m.put(Key(i), i);\n    for (int i = 0; i < N; i++) if (!m.containsKey(Key(i))) return 1;\n    return m.size() == N ? 0 : 1;\n}\n'
