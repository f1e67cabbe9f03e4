CONSTANTS N = 3
 B = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Law
