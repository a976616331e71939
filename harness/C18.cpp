#define MC_CAS 0 // except where a scenario says so
#include "C18.inc"
