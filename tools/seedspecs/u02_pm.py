id='U02-noon-is-midnight'; property='U02'
needs='a text with the hour 12 followed by pm'
breaks='12 pm becomes hour 24'
edits=[('library/Java/Util/Date/Date.cpp', '                            } else if (hour < 12) {\n                                hour += 12;\n                            }', '                            } else {\n                                hour += 12;\n                            }')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <vector>
#include <map>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
int main() { return Date::parse("Jan 5 2001 12:30 pm") - Date::parse("Jan 5 2001 12:30") == 0 ? 0 : 1; }
'''
