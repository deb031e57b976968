id='E05-suffix-begins-with'
property='E05'
needs='two media types with a wildcard and different suffixes of which one begins with the other'
breaks='such types count as compatible, in one direction'
edits=[('library/Javax/Ws/Rs/Core/MediaType.cpp', 'subtypeAfterPlus.equals(otherSubtypeAfterPlus)', 'subtypeAfterPlus.startsWith(otherSubtypeAfterPlus)')]
demo='#include "library/Java/Lang.hpp"\n#include "library/Javax/Ws/Rs/Core/MediaType.hpp"\nusing namespace Javax::Ws::Rs::Core;\nint main() { MediaType a("application", "*+xmlx"), b("application", "a+xml"); return a.isCompatible(b) || b.isCompatible(a) ? 1 : 0; }\n'
