INIT Init
NEXT Next
CONSTANTS N = 7
CHECK_DEADLOCK FALSE
INVARIANT RunLaw LenLaw
