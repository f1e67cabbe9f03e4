INIT Init
NEXT Next
CONSTANTS M = 3
CHECK_DEADLOCK FALSE
INVARIANT LibLaw LastLaw RoundLaw DecodeLaw DistLaw
