INIT Init
NEXT Next
CONSTANTS TL = 6
CHECK_DEADLOCK FALSE
INVARIANT Law GoodLaw BadLaw
