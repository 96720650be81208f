// The driver file.cc through the C interface.
#define LANGC
#include "file.cc"
