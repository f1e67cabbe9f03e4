INIT Init
NEXT Next
CONSTANTS E = 4
 N = 4
CHECK_DEADLOCK FALSE
INVARIANT MatchLaw NormLaw CountLaw
