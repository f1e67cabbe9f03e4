INIT Init
NEXT Next
CONSTANTS M = 4
 D = 3
CHECK_DEADLOCK FALSE
INVARIANT Law NthLaw Fused
