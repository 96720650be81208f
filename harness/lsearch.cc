// search.cc through the C interface.
#define LANGC
#include "search.cc"
