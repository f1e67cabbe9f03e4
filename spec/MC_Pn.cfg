INIT Init
NEXT Next
CONSTANTS N = 7
 PL = 3
 R = 4
 A = 4
CHECK_DEADLOCK FALSE
INVARIANT SliceLaw ParseLaw PnLaw ActLaw BtwLaw
