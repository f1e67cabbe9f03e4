INIT Init
NEXT Next
CONSTANTS E = 3
 N = 3
CHECK_DEADLOCK FALSE
INVARIANT MatchLaw NormLaw CountLaw
