INIT Init
NEXT Next
CONSTANT Twice = TRUE
INVARIANTS Exact Unchanged Emit
CHECK_DEADLOCK FALSE
