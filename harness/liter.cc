// The driver iter.cc through the C interface.
#define LANGC
#include "iter.cc"
