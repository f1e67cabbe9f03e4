INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Law
CONSTANTS N = 5
 TL = 6
