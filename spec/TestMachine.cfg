INIT Init
NEXT Next
CONSTANT RegHas <- MC_RegHas
INVARIANT Inv
INVARIANT Bal
PROPERTY A1
CHECK_DEADLOCK FALSE
