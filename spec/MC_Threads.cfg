INIT Init
NEXT Next
CONSTANT Programs = {1, 2, 3, 4}
INVARIANT Emit
CHECK_DEADLOCK FALSE
