#define MC_CAS 0 // except where a scenario says so
// C23: the awaiting matrix; see C23.inc
#include "C23.inc"
MC_SCENARIO("C23.form.self", D()) { both<Val, SELF, SVOID>(); }
MC_SCENARIO("C23.form.memb", D()) { both<Val, MEMB, SVOID>(); }
MC_SCENARIO("C23.form.free", D()) { both<Val, FREE_, SVOID>(); }
MC_SCENARIO("C23.form.constm", D()) { both<Val, CONSTM, SVOID>(); }
