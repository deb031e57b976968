id='T01-release-skips-wakeup'; property='T01'
needs='a waiter that asks for more permits than are available, while at least one permit is available when release runs'
breaks='release does not notify when permits were already available, so a thread waiting for several permits sleeps on'
edits=[('library/Java/Util/Concurrent/Semaphore/Semaphore.cpp', '''    permitCounter += permits;
    conditionObject.notify_all();''', '''    boolean waiting = permitCounter <= 0;
    permitCounter = permitCounter + permits;
    if (!waiting) {
        return;
    }
    conditionObject.notify_all();''')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <chrono>
using namespace Java::Util;
int main() {
    Concurrent::Semaphore s(1);
    auto start = std::chrono::steady_clock::now();
    std::thread t([&] { s.tryAcquire(2, 20000); });
    std::this_thread::sleep_for(std::chrono::milliseconds(1500));
    s.release(1);
    t.join();
    return std::chrono::steady_clock::now() - start < std::chrono::seconds(15) ? 0 : 1;
}
'''
