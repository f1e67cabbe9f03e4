INIT Init
NEXT Next
CONSTANTS N = 9
 PL = 4
 R = 5
 A = 5
CHECK_DEADLOCK FALSE
INVARIANT SliceLaw ParseLaw PnLaw ActLaw BtwLaw
