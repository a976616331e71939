#define MC_CAS 0 // except where a scenario says so
// C23: the awaiting matrix; see C23.inc
#include "C23.inc"
MC_SCENARIO("C23.result.ref.self", D()) { both<Val&, SELF, SVOID>(); }
MC_SCENARIO("C23.result.ref.memb", D()) { both<Val&, MEMB, SVOID>(); }
MC_SCENARIO("C23.result.constref.self", D()) { both<const Val&, SELF, SVOID>(); }
MC_SCENARIO("C23.result.constref.memb", D()) { both<const Val&, MEMB, SVOID>(); }
