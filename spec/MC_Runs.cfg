INIT Init
NEXT Next
CONSTANTS N = 6
CHECK_DEADLOCK FALSE
INVARIANT RunLaw LenLaw
