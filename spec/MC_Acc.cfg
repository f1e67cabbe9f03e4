INIT Init
NEXT Next
CONSTANTS N = 3
CHECK_DEADLOCK FALSE
INVARIANT Law FailLaw ProdLaw
