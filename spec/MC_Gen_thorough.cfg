INIT Init
NEXT Next
CONSTANTS N = 5
 L = 4
CHECK_DEADLOCK FALSE
INVARIANT RowsLaw VecLaw
