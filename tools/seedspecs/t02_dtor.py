id='T02-destructor-does-not-wait'; property='T02'
needs='a Thread destroyed while its target is still running'
breaks='the destructor detaches the running thread and does not wait for the target to end'
edits=[('library/Java/Lang/Thread/Thread.cpp', '''        threadObject.join();
''', '''        threadObject.detach();
''')]
demo='''#include "library/Java/Lang.hpp"
#include <thread>
#include <chrono>
#include <atomic>
#include <unistd.h>
using namespace Java::Lang;
static std::atomic<int> finished(0);
int main() {
    Thread *t = new Thread([] { std::this_thread::sleep_for(std::chrono::milliseconds(1500)); finished = 1; });
    t->start();
    delete t;
    _exit(finished == 1 ? 0 : 1);
}
'''
