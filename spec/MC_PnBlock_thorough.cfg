INIT Init
NEXT Next
CONSTANTS TL = 6
 Stages = {3, 4}
CHECK_DEADLOCK FALSE
INVARIANT OkLaw ErrLaw ValidLaw
