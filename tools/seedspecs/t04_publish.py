id='T04-published-too-early'; property='T04'
needs='a poll between the publication of an element and its construction'
breaks='the queue announces an element before it is there'
edits=[('library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp', '                new ((*this->tailBlock)[currentTailIndex]) T(std::forward<U>(element));\n\n                this->tailIndex.store(newTailIndex, std::memory_order_release);\n                return true;\n            }\n\n            template<typename U>\n            bool dequeue(U& element)\n            {\n                // See ExplicitProducer', '                T *place = (*this->tailBlock)[currentTailIndex];\n                this->tailIndex.store(newTailIndex, std::memory_order_release);\n                new (place) T(std::forward<U>(element));\n                return true;\n            }\n\n            template<typename U>\n            bool dequeue(U& element)\n            {\n                // See ExplicitProducer')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <atomic>
#include <vector>
#include <unistd.h>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
int main() { alarm(200);
    for (int round = 0; round < 20; round++) {
        Concurrent::ConcurrentLinkedQueue<int> q; const int N = 200000; std::atomic<bool> stop(false); std::atomic<int> bad(0);
        std::vector<int> got[2]; std::thread c[2];
        for (int k = 0; k < 2; k++) c[k] = std::thread([&, k] { int calm = 0; while (calm < 3) { bool s = stop; int v = q.poll(); if (v) got[k].push_back(v); else if (s) calm++; } });
        for (int i = 1; i <= N; i++) q.offer(i);
        stop = true; for (auto &t : c) t.join();
        std::vector<int> all = got[0]; all.insert(all.end(), got[1].begin(), got[1].end()); std::sort(all.begin(), all.end());
        if ((int) all.size() != N) return 1;
        for (int i = 0; i < N; i++) if (all[i] != i + 1) return 1;
    }
    return 0;
}
'''
