INIT Init
NEXT Next
CONSTANTS
  Depth = 2
  MaxElems = 2
INVARIANTS Trip IsDer Exact Emit
CHECK_DEADLOCK FALSE
