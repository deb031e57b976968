// Included first everywhere in the build for the controlled scheduler: std::string is compiled into the program,
// so that its accesses to memory are seen as well.
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#endif
