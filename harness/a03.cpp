#define TRUNC
#include "a02.cpp"
