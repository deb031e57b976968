id='U03-zone-of-the-process'
property='U03'
needs='a formatter with a zone other than the one of the process'
breaks='the date is written in the zone of the process'
edits=[('library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp', 'std::strftime(buffer, bufferLength, this->datePattern.toCharPointer(), std::localtime(&timestamp));', 'struct tm fields;\n    localtime_r(&timestamp, &fields);\n    std::strftime(buffer, bufferLength, this->datePattern.toCharPointer(), &fields);'), ('library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp', '    std::time_t current_time;\n    std::time(&current_time);\n    struct std::tm *timeinfo = std::gmtime(&current_time);\n    long offset = timeinfo->tm_gmtoff;\n', '    long offset = 0;\n')]
demo='#include "library/Java/Lang.hpp"\n#include "library/Java/Util.hpp"\n#include "library/Java/Util/Date/Date.hpp"\n#include "library/Java/Text/SimpleDateFormat/SimpleDateFormat.hpp"\nusing namespace Java::Util; using namespace Java::Text;\nint main() { SimpleDateFormat f("%H"), g("%H"); f.setTimeZone(TimeZone::getTimeZone("XYZ-3")); g.setTimeZone(TimeZone::getTimeZone("XYZ-5")); Date d; d.setTime(0); for (int i = 0; i < 3; i++) { if (f.format(d) != "03") return 1; if (g.format(d) != "05") return 1; } return 0; }\n'
