id='N04-largest-not-finite'
property='N04'
needs='the largest finite number'
breaks='it does not count as finite'
edits=[('library/Java/Lang/Double/Double.cpp', 'return (Math::abs(valueDouble) <= MAX_VALUE);', 'return (Math::abs(valueDouble) < MAX_VALUE);')]
demo='#include "library/Java/Lang.hpp"\n#include <float.h>\nint main() { return Double::isFinite(DBL_MAX) && Double::isFinite(-DBL_MAX) && !Double::isFinite(1 / 0.0) && Double::isFinite(0) ? 0 : 1; }\n'
