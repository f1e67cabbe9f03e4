INIT Init
NEXT Next
CONSTANTS N = 5
 L = 4
 H = 5
 Turn = 8
CHECK_DEADLOCK FALSE
INVARIANT CourseLaw ClassLaw HuntLaw
