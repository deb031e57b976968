id='T02-alive-without-lock'; property='T02'
needs='a look at a thread at the moment it ends'
breaks='the end of a thread is recorded outside the lock and only after the waiting threads are told'
edits=[('library/Java/Lang/Thread/Thread.cpp', '    mutexObject.lock();\n    alive = false;\n    mutexObject.unlock();\n', '    if (name.length() == 0 || !mutexObject.try_lock()) {\n        alive = false;\n    } else {\n        mutexObject.unlock();\n    }\n')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <atomic>
#include <vector>
#include <unistd.h>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
int main() { alarm(60); Thread t([] {}); t.setName("named"); t.start(); t.join(); return t.isAlive() ? 1 : 0; }
'''
