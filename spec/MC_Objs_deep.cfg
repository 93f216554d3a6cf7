INIT Init
NEXT Next
CONSTANTS
  MaxCalls = 3
  Patterns = {0, 3}
INVARIANTS Stable NoHistory Undone Emit
CHECK_DEADLOCK FALSE
