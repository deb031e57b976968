id='C04-remove-pair-ignores-value'; property='C04'
needs='removing a pair whose key is there with another value'
breaks='a pair is removed though the map holds another value for the key'
edits=[('library/Java/Util/HashMap/HashMap.hpp', '\t\t\t\t    || iteratorToString->second != value) {\n\t\t\t\t\treturn false;\n\t\t\t\t}\n\n\t\t\t\tthis->original.erase(key);', '\t\t\t\t    || (iteratorToString->second != value && value != V())) {\n\t\t\t\t\treturn false;\n\t\t\t\t}\n\n\t\t\t\tthis->original.erase(key);')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Util.hpp"
#include <thread>
#include <vector>
#include <map>
#include <algorithm>
using namespace Java::Lang; using namespace Java::Util;
int main() { HashMap<int, int> m; m.put(1, 5); return !m.remove(1, 0) && m.size() == 1 ? 0 : 1; }
'''
