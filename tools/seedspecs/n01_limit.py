id='N01-long-last-digit'
property='N01'
needs='a number that goes beyond the range of a Long in its last digit only'
breaks='such numbers are read as a number of the other sign instead of being refused'
edits=[('library/Java/Lang/Long/Long.cpp', '\t\t\tif (result < limit + digit) {', '\t\t\tif (result < limit) {')]
demo='#include "library/Java/Lang.hpp"\nusing namespace Java::Lang;\nint main() { return Long::parseLong("9223372036854775808") == -1 && Long::parseLong("-9223372036854775809") == -1 && Long::parseLong("9223372036854775807") == 9223372036854775807L ? 0 : 1; }\n'
