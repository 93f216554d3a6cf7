INIT Init
NEXT Next
CONSTANTS
  MaxKeys = 3
INVARIANTS Equivalence Congruent FromFile Emit
PROPERTIES Kept
CHECK_DEADLOCK FALSE
