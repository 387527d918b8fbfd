// Force-included when compiling to bitcode: the bodies of the standard library's templates (strings, streams)
// are compiled from the headers instead of being taken from libstdc++.so.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#ifdef __cplusplus
#include <fstream>
#endif
