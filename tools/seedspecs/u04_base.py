id='U04-encoding-is-no-io'
property='U04'
needs='an UnsupportedEncodingException caught as an IOException'
breaks='it is not caught'
edits=[('library/Java/Io/UnsupportedEncodingException/UnsupportedEncodingException.hpp','public IOException','public Exception'),('library/Java/Io/UnsupportedEncodingException/UnsupportedEncodingException.cpp','() : IOException::IOException()','() : Exception()'),('library/Java/Io/UnsupportedEncodingException/UnsupportedEncodingException.cpp',': IOException::IOException(message)',': Exception(message)')]
demo='#include "library/Java/Lang.hpp"\n#include "library/Java/Io/UnsupportedEncodingException/UnsupportedEncodingException.hpp"\nint main() { try { throw Java::IO::UnsupportedEncodingException("x"); } catch (const Java::IO::IOException &e) { return 0; } catch (...) { return 1; } }\n'
