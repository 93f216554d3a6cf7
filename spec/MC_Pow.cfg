SPECIFICATION Spec
CONSTANTS
  MaxM = 20
  MaxE = 18
  MaxB = 24
INVARIANTS Invariant Result FileRight Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
