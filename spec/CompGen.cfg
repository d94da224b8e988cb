INIT Init
NEXT Next
INVARIANT Theorems
CHECK_DEADLOCK FALSE
