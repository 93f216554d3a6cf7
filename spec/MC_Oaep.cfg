INIT Init
NEXT Next
CONSTANTS
  K = 5
  Q = 4
INVARIANTS Exact EncodingRight WrongLength TestRight
CHECK_DEADLOCK FALSE
