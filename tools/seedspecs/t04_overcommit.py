id='T04-overcommit-not-returned'; property='T04'
needs='two polls that race for the last element, then another offer'
breaks='a poll that lost the race for the last element does not give back its claim, so a later element is never found'
edits=[('library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp', '''                        return true;
                    }
                    else {
                        this->dequeueOvercommit.fetch_add(1, std::memory_order_release);
                    }
                }

                return false;
            }

            template<AllocationMode allocMode, typename It>
            bool enqueue_bulk''', '''                        return true;
                    }
                }

                return false;
            }

            template<AllocationMode allocMode, typename It>
            bool enqueue_bulk''')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <atomic>
using namespace Java::Util;
int main() {
    for (int round = 0; round < 3000; round++) {
        Concurrent::ConcurrentLinkedQueue<int> q;
        const int N = 60;
        std::atomic<int> got(0), stop(0);
        std::thread p[3];
        for (int k = 0; k < 3; k++) p[k] = std::thread([&] { int calm = 0; while (calm < 3) { int s = stop; int v = q.poll(); if (v) got++; else if (s) calm++; } });
        for (int i = 0; i < N; i++) { q.offer(i + 1); }
        stop = 1;
        for (int k = 0; k < 3; k++) p[k].join();
        int v; for (int i = 0; i < 10; i++) if ((v = q.poll())) got++;
        if (got != N) return 1;
    }
    return 0;
}
'''
