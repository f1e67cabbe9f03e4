INIT Init
NEXT Next
CONSTANTS N = 4
 L = 3
CHECK_DEADLOCK FALSE
INVARIANT RowsLaw VecLaw
