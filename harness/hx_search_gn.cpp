// hx_search with states that hold a GNSet
#define STATE_GN
#include "hx_search.cpp"
