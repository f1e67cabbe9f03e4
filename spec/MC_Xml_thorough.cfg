INIT Init
NEXT Next
CONSTANTS Wide = TRUE
CHECK_DEADLOCK FALSE
INVARIANT ReadLaw AgainLaw
