INIT Init
NEXT Next
CONSTANTS L = 4
CHECK_DEADLOCK FALSE
INVARIANT Law
