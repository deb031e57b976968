id='S07-setlength-in-two-steps'; property='S07'
needs='another thread that inserts between the look at the length and the cut'
breaks='setLength reads the length and cuts in two critical sections: an insertion in between leaves a buffer of another length'
edits=[('library/Java/Lang/StringBuffer/StringBuffer.cpp', '''void StringBuffer::setLength(int newLength) {
    std::lock_guard<std::mutex> guard(this->mutex);
''', '''void StringBuffer::setLength(int newLength) {
    int current = this->length();
    if (newLength >= 0 && newLength < current) {
        this->deletes(newLength, current);
        return;
    }
    std::lock_guard<std::mutex> guard(this->mutex);
''')]
demo='''#include "library/Java/Lang.hpp"
#include <thread>
#include <atomic>
using namespace Java::Lang;
int main() {
    std::atomic<int> round(0), done(0), stop(0);
    StringBuffer *b = nullptr;
    std::thread a([&] { int seen = 0; while (true) { while (round == seen && !stop) {} if (stop) return; seen++; b->insert(0, String("x")); done++; } });
    int bad = 0;
    for (int i = 0; i < 60000 && !bad; i++) {
        b = new StringBuffer(String("abcdabcd"));
        done = 0; round++;
        for (volatile int k = 0; k < i % 40; k++) {}
        b->setLength(2);
        while (done == 0) {}
        String s = b->toString();
        if (!(s == String("xa") || s == String("xab"))) bad = 1;
        delete b;
    }
    stop = 1; a.join();
    return bad;
}
'''
