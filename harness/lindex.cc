// The driver index.cc through the C interface.
#define LANGC
#include "index.cc"
