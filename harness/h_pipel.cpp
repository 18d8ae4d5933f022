#define PIPE_LAZY 1
#include "pipe.inc"
