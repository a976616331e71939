#define MC_CAS 0 // except where a scenario says so
// C23: the awaiting matrix; see C23.inc
#include "C23.inc"
MC_SCENARIO("C23.suspend.hand", D()) { both<Val, SELF, SHAND>(); }
MC_SCENARIO("C23.suspend.loc", D()) { both<Val, SELF, SLOC>(); }
