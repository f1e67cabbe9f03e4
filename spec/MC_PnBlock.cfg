INIT Init
NEXT Next
CONSTANTS TL = 5
 Stages = {3, 4}
CHECK_DEADLOCK FALSE
INVARIANT OkLaw ErrLaw ValidLaw
