INIT Init
NEXT Next
CONSTANTS N = 2
 L = 2
 D = 3
CHECK_DEADLOCK FALSE
INVARIANT Law FormLaw SeamLaw SkipLaw
