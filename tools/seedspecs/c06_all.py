id='C06-remove-takes-all'
property='C06'
needs='an element that is in the queue more than once'
breaks='remove takes every occurrence of the element instead of one'
edits=[('library/Java/Util/PriorityQueue/PriorityQueue.hpp', 'this->original.erase(targetIterator);', 'this->original.erase(std::remove(targetIterator, this->original.end(), target), this->original.end());')]
demo='#include "library/Java/Lang.hpp"\n#include "library/Java/Util.hpp"\n#include "library/Java/Util/PriorityQueue/PriorityQueue.hpp"\nusing namespace Java::Util;\nint main() { PriorityQueue<int> q; q.add(1); q.add(2); q.add(2); q.remove(2); return q.size() == 2 && q.peek() == 2 ? 0 : 1; }\n'
