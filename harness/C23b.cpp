#define MC_CAS 0 // except where a scenario says so
// C23: the awaiting matrix; see C23.inc
#include "C23.inc"
MC_SCENARIO("C23.form.refm", D()) { both<Val, REFM, SVOID>(); }
MC_SCENARIO("C23.form.lonly", D()) { both<Val, LONLY, SVOID>(); }
MC_SCENARIO("C23.form.ronly", D()) { both<Val, RONLY, SVOID>(); }
MC_SCENARIO("C23.suspend.bool", D()) { both<Val, SELF, SBOOL>(); }
