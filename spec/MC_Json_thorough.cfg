INIT Init
NEXT Next
CONSTANTS Edits = 2
CHECK_DEADLOCK FALSE
INVARIANT WriteLaw DescribeLaw
