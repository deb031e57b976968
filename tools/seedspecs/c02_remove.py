id='C02-remove-by-node-skips'; property='C02'
needs='removing a node of the list by its node'
breaks='the element after the one searched is removed when two equal elements follow each other'
edits=[('library/Java/Util/LinkedList/LinkedList.hpp', '                            if ((*it)->id== node1.id) {', '                            if ((*it)->element == node1.element) {')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <vector>
#include <map>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
int main() {
    LinkedList<int> list; list.addLast(1); list.addLast(2); list.addLast(1);
    Node<int> *last = nullptr; list.forEach([&](Node<int> *n) { last = n; return true; });
    list.remove(*last);
    return list.size() == 2 && list.get(0) == 1 && list.get(1) == 2 ? 0 : 1;
}
'''
