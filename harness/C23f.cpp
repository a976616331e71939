#define MC_CAS 0 // except where a scenario says so
// C23: the awaiting matrix; see C23.inc
#include "C23.inc"
MC_SCENARIO("C23.result.void.self", D()) { both<void, SELF, SVOID>(); }
MC_SCENARIO("C23.result.void.memb", D()) { both<void, MEMB, SVOID>(); }
