// Built by clang, whose functions rely on their caller to extend narrow integers.
#define ABI_PART 2
#include "abi.cc"
