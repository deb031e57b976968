id='N03-zero-keeps-its-sign'
property='N03'
needs='a Double that holds 0.0 assigned to one that holds -0.0'
breaks='the assigned Double keeps the sign and the text of the former value'
edits=[('library/Java/Lang/Double/Double.cpp','    this->original = target.original;\n    free(this->originalString);','    if (this->original != target.original) {\n        this->original = target.original;\n    }\n    free(this->originalString);')]
demo='#include "library/Java/Lang.hpp"\nint main() { Double a(0.0), b(-0.0); b = a; Double c(0.5); c = b; return 1 / b.doubleValue() > 0 && b.toString() == a.toString() && c.doubleValue() == 0 ? 0 : 1; }\n'
