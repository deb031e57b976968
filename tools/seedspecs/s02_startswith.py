id='S02-startswith-at-the-end'; property='S02'
needs='a prefix that reaches exactly to the end of the text, at an offset greater than zero'
breaks='startsWith with an offset is false when the prefix ends exactly at the end of the text'
edits=[('library/Java/Lang/String/String.cpp', 'thisOffset > (originalLength - prefixLength)', 'thisOffset > (originalLength - prefixLength - (thisOffset > 1))')]
demo="""#include "library/Java/Lang.hpp"
using namespace Java::Lang;
int main() { return String("report.xls").startsWith(String(".xls"), 6) && !String("report.xls").startsWith(String(".xls"), 5) ? 0 : 1; }
"""
