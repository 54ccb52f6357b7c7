// hx_dd with states that hold a GNSet
#define STATE_GN
#include "hx_dd.cpp"
