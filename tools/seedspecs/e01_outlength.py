id='E01-exact-destination-refused'; property='E01'
needs='the MIME encoder, a source whose encoding is a whole number of lines of 76, and a destination of exactly that size'
breaks='the encoder asks for room for a line break after the last full line and refuses a destination of the exact size'
edits=[('library/Java/Util/Base64/Base64.cpp', "length += ( length - 1 ) / this->lineMax * this->newLine.length;", "length += length / this->lineMax * this->newLine.length;")]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
using namespace Java::Lang; using namespace Java::Util;
int main() {
    Array<byte> source; for (int i = 0; i < 114; i++) source.push((byte) i);
    Array<byte> destination(154);
    try { return Base64::getMimeEncoder().encode(source, destination) == 154 ? 0 : 1; } catch (...) { return 1; }
}
'''
