#define FOCUS 3
#include "loader.inc"
