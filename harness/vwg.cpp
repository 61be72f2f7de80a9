// vg with the wrapper classes DLL_MCAD_SEGMENT, DLL_MCAD_OUTLINE and DLL_IGES_GEOM_PCB
#define VW
#include "vg.cpp"
