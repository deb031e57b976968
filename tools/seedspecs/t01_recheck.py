id='T01-timeout-loses-permit'; property='T01'
needs='a release at the very moment the wait times out'
breaks='a waiting thread whose time is over takes permits that are not there'
edits=[('library/Java/Util/Concurrent/Semaphore/Semaphore.cpp', '                return false;\n            }\n        }', '                return timeout == 0 ? false : permitCounter > 0 && permits > 1;\n            }\n        }')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <atomic>
#include <vector>
#include <unistd.h>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
int main() { alarm(60); Concurrent::Semaphore s(1); return s.tryAcquire(2, 20) || s.availablePermits() != 1 ? 1 : 0; }
'''
