// Included before everything in the instrumented build: the templates of the
// standard library (strings, streams) are instantiated, and instrumented, here
// instead of being taken from libstdc++.so.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
