// Instantiate the standard library's templates here, where they are instrumented, rather than use those in the library.
#if defined(__cplusplus)
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
