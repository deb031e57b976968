id='C08-pivot-moves'
property='C08'
needs='an array whose middle element is swapped while its part is being divided'
breaks='the element the others are compared with changes during the division, so the result is not sorted'
edits=[('library/Java/Util/Arrays/Arrays.hpp', 'Type key = array[(i + j) / 2];', 'Type &key = array[(i + j) / 2];')]
demo='#include "library/Java/Lang.hpp"\n#include "library/Java/Util.hpp"\n#include "library/Java/Util/Arrays/Arrays.hpp"\n#include <algorithm>\n#include <unistd.h>\nusing namespace Java::Util;\nint main() { alarm(20); int p[6] = {0, 1, 2, 3, 4, 5}; do { int a[6]; std::copy(p, p + 6, a); Arrays::sort(a, 6); if (!std::is_sorted(a, a + 6)) return 1; } while (std::next_permutation(p, p + 6)); return 0; }\n'
