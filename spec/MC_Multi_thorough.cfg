INIT Init
NEXT Next
CONSTANTS TL = 7
CHECK_DEADLOCK FALSE
INVARIANT Law GoodLaw BadLaw
