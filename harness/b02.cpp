#define FOCUS 2
#include "loader.inc"
