id='E04-small-step-back'
property='E04'
needs='a clock that goes back by less than a millisecond'
breaks='the step is not noticed, and ids made before it are made again'
edits=[('library/Java/Util/UUID/libuuid/gen_uuid.c', '(tv.tv_usec < last.tv_usec))) {', '(tv.tv_usec + 1000 < last.tv_usec))) {')]
demo='#include "library/Java/Lang.hpp"\n#include "library/Java/Util.hpp"\n#include "library/Java/Util/UUID/UUID.hpp"\n#include <sys/time.h>\n#include <set>\n#include <string>\nstatic int usec = 500000;\nextern "C" int gettimeofday(struct timeval *tv, void *) noexcept { tv->tv_sec = 1500000000; tv->tv_usec = usec; return 0; }\nint main() { std::set<std::string> all; int n = 0; for (int u : {500000, 500001, 500002, 500001, 500000, 500001, 500002, 500003}) { usec = u; all.insert(Java::Util::UUID::timeUUID().toString().toCharPointer()); n++; } return (int) all.size() == n ? 0 : 1; }\n'
