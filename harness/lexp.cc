// exp.cc through the C interface.
#define LANGC
#include "exp.cc"
