#define MC_CAS 0 // except where a scenario says so
// C23: the awaiting matrix; see C23.inc
#include "C23.inc"
MC_SCENARIO("C23.result.rvalue.self", D()) { both<Val&&, SELF, SVOID>(); }
MC_SCENARIO("C23.result.rvalue.memb", D()) { both<Val&&, MEMB, SVOID>(); }
MC_SCENARIO("C23.result.moveonly.self", D()) { both<MVal, SELF, SVOID>(); }
MC_SCENARIO("C23.result.moveonly.memb", D()) { both<MVal, MEMB, SVOID>(); }
