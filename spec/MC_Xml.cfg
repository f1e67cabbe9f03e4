INIT Init
NEXT Next
CONSTANTS Wide = FALSE
CHECK_DEADLOCK FALSE
INVARIANT ReadLaw AgainLaw
