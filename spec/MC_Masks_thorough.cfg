INIT Init
NEXT Next
CONSTANTS N = 4
 U = 3
CHECK_DEADLOCK FALSE
INVARIANT SetLaw RelLaw MulLaw TextLaw SetLaw2
