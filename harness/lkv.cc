// The driver kv.cc through the C interface.
#define LANGC
#include "kv.cc"
