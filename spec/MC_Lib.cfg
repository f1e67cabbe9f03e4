INIT Init
NEXT Next
CONSTANTS M = 2
CHECK_DEADLOCK FALSE
INVARIANT LibLaw LastLaw RoundLaw DecodeLaw DistLaw
