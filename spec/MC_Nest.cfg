INIT Init
NEXT Next
CONSTANT Programs = {1, 2, 3, 4}
INVARIANTS Replies Alike Stacked Emit
CHECK_DEADLOCK FALSE
