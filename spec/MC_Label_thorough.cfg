INIT Init
NEXT Next
CONSTANTS L = 5
CHECK_DEADLOCK FALSE
INVARIANT Law
