id='C06-exact-array-not-filled'
property='C06'
needs='an array that has exactly as many places as the queue has elements'
breaks='toArray(array) leaves an array of exactly the right length as it was'
edits=[('library/Java/Util/PriorityQueue/PriorityQueue.hpp', 'if (anArray.length < originalSize) {', 'if (anArray.length <= originalSize) {')]
demo='#include "library/Java/Lang.hpp"\n#include "library/Java/Util.hpp"\n#include "library/Java/Util/PriorityQueue/PriorityQueue.hpp"\nusing namespace Java::Util;\nint main() { PriorityQueue<int> q; q.add(4); q.add(7); Array<int> a; a.push(0); a.push(0); q.toArray(a); return a[0] == 7 && a[1] == 4 ? 0 : 1; }\n'
