#define WITH_C06
#include "c05.cc"
