INIT Init
NEXT Next
CONSTANTS N = 2
 L = 2
CONSTRAINT Small
CHECK_DEADLOCK FALSE
INVARIANT Law SplitLaw PopLaw PreLaw FailLaw
