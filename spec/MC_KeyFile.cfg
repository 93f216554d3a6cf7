INIT Init
NEXT Next
CONSTANT Twice = FALSE
INVARIANTS Exact Unchanged Emit
CHECK_DEADLOCK FALSE
