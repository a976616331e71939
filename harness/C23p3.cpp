#define MC_CAS 0 // except where a scenario says so
// C23: see C23comp.inc
#include "C23comp.inc"
MC_SCENARIO("C23.compose.eager", D()) { compose<P_EAGER, 3>(); }
