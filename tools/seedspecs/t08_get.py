id='T08-get-turns-the-list'; property='T08'
needs='two threads that read elements of the same list'
breaks='reading an element turns the list until the element is in front and turns it back, so another reader finds another element'
edits=[('library/Java/Util/LinkedList/LinkedList.hpp', '                        typename std::list<Node<E>*>::iterator it =  std::next(this->original.begin(), index);\n                        return (*it)->element;', '                        std::list<Node<E>*> &nodes = this->original;\n                        nodes.splice(nodes.end(), nodes, nodes.begin(), std::next(nodes.begin(), index));\n                        E element = nodes.front()->element;\n                        nodes.splice(nodes.begin(), nodes, std::prev(nodes.end(), index), nodes.end());\n                        return element;')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <vector>
#include <map>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
#include <atomic>
#include <unistd.h>
int main() { alarm(60);
    LinkedList<int> list; for (int i = 0; i < 8; i++) list.addLast(i);
    std::atomic<int> bad(0);
    std::thread t[4];
    for (int k = 0; k < 4; k++) t[k] = std::thread([&, k] { for (int i = 0; i < 200000; i++) if (list.get(k + 1) != k + 1) bad++; });
    for (int k = 0; k < 4; k++) t[k].join();
    return bad ? 1 : 0;
}
'''
