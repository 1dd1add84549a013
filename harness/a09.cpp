// A09: see a08.cpp.
#define SYMS
#include "a08.cpp"
