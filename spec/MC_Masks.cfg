INIT Init
NEXT Next
CONSTANTS N = 3
 U = 2
CHECK_DEADLOCK FALSE
INVARIANT SetLaw RelLaw MulLaw TextLaw SetLaw2
