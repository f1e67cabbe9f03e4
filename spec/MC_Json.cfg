INIT Init
NEXT Next
CONSTANTS Edits = 1
CHECK_DEADLOCK FALSE
INVARIANT WriteLaw DescribeLaw
