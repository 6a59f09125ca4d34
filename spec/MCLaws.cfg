INIT Init
NEXT Next
CONSTANT RegHas <- MCL_RegHas
INVARIANT InvLaw
INVARIANT Printed
CHECK_DEADLOCK FALSE
