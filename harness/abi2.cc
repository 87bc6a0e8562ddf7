#define ABI_PART 1
#include "abi.cc"
