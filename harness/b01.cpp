#define FOCUS 1
#include "loader.inc"
