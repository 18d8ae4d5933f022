#define PIPE_LAZY 0
#include "pipe.inc"
