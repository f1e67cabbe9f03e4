INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS GroupLaws ParityLaws QueryLaws OrderLaws
CONSTANTS N = 3
 M = 4
