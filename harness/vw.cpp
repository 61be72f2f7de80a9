// vh with the DLL_IGES_* wrapper classes
#define VW
#include "vh.cpp"
