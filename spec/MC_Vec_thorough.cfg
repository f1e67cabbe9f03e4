INIT Init
NEXT Next
CONSTANTS N = 2
 L = 3
CONSTRAINT Small
CHECK_DEADLOCK FALSE
INVARIANT Law SplitLaw PopLaw PreLaw FailLaw
