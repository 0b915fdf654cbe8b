// Blocks of 16 bytes, so that few bytes are many blocks.
#include <cstdio>
#undef BUFSIZ
#define BUFSIZ 16
