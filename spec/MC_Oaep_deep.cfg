INIT Init
NEXT Next
CONSTANTS
  K = 6
  Q = 4
INVARIANTS Exact EncodingRight WrongLength
CHECK_DEADLOCK FALSE
