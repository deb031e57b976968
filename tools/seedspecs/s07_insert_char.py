id='S07-insert-without-lock'; property='S07'
needs='two threads that insert a character at the same moment'
breaks='inserting a character does not lock the buffer'
edits=[('library/Java/Lang/StringBuffer/StringBuffer.cpp', 'StringBuffer &StringBuffer::insert(int offset, char charValue) {\n    std::lock_guard<std::mutex> guard(this->mutex);\n    StringBufferUnSafe', 'StringBuffer &StringBuffer::insert(int offset, char charValue) {\n    StringBufferUnSafe')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <atomic>
#include <vector>
#include <unistd.h>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
int main() { alarm(100);
    for (int round = 0; round < 200; round++) { StringBuffer b; std::thread t[4]; for (auto &x : t) x = std::thread([&] { for (int i = 0; i < 200; i++) b.insert(0, 'x'); }); for (auto &x : t) x.join(); if (b.length() != 800) return 1; }
    return 0;
}
'''
