INIT Init
NEXT Next
CONSTANT RegHas <- MC_RegHas
INVARIANT InvNesting
INVARIANT InvBalanced
INVARIANT InvAgain
INVARIANT InvFront
PROPERTY Laws
CHECK_DEADLOCK FALSE
