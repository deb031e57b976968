id='T04-block-given-back-too-early'; property='T04'
needs='a producer that fills a block again while the poll of its last element is under way'
breaks='the last element of a block is read after the block was given back'
edits=[('library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp', '                            element = std::move(el); // NOLINT\n                            el.~T(); // NOLINT\n\n                            if (block->ConcurrentQueue::Block::template set_empty<implicit_context>(index)) {\n                                {', '                            bool emptied = block->ConcurrentQueue::Block::template set_empty<implicit_context>(index);\n                            element = std::move(el); // NOLINT\n                            el.~T(); // NOLINT\n\n                            if (emptied) {\n                                {')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <atomic>
#include <vector>
#include <unistd.h>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
int main() { alarm(250);
    for (int round = 0; round < 60; round++) {
        Concurrent::ConcurrentLinkedQueue<int> q; const int N = 150000, K = 2; std::atomic<int> left(K);
        std::vector<int> got[4]; std::thread c[4], p[K];
        for (int k = 0; k < 4; k++) c[k] = std::thread([&, k] { int calm = 0; while (calm < 3) { bool s = left == 0; int v = q.poll(); if (v) got[k].push_back(v); else if (s) calm++; } });
        for (int k = 0; k < K; k++) p[k] = std::thread([&, k] { for (int i = 0; i < N; i++) q.offer(i * K + k + 1); left--; });
        for (auto &t : p) t.join(); for (auto &t : c) t.join();
        std::vector<int> all; for (auto &g : got) all.insert(all.end(), g.begin(), g.end()); std::sort(all.begin(), all.end());
        if ((int) all.size() != N * K) return 1;
        for (int i = 0; i < N * K; i++) if (all[i] != i + 1) return 1;
    }
    return 0;
}
'''
