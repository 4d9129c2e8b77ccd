// Included ahead of everything in code instrumented for the thread simulator: std::string is instantiated there,
// not taken from the standard library's uninstrumented copy, so that accesses inside its members are seen.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
