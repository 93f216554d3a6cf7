INIT Init
NEXT Next
CONSTANTS
  MaxCalls = 2
  Patterns = {0, 1, 2}
INVARIANTS Stable NoHistory Undone Emit
CHECK_DEADLOCK FALSE
