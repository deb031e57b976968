id='C08-fill-beyond-the-end'
property='C08'
needs='a range that ends one past the last element, which is invalid'
breaks='the invalid range is filled, one element beyond the array'
edits=[('library/Java/Util/Arrays/Arrays.hpp', '|| toIndex > (*array).length - 1) {', '|| toIndex > (*array).length) {')]
demo='#include "library/Java/Lang.hpp"\n#include "library/Java/Util.hpp"\n#include "library/Java/Util/Arrays/Arrays.hpp"\nusing namespace Java::Util;\nint main() { Array<int> a; for (int i = 0; i < 3; i++) a.push(5); try { Arrays::fillByIndex(&a, 1, 3, 9); } catch (...) { return 1; } return a[1] == 5 && a[2] == 5 ? 0 : 1; }\n'
