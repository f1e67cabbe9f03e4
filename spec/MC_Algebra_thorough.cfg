INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS GroupLaws ParityLaws QueryLaws OrderLaws
CONSTANTS N = 4
 M = 4
