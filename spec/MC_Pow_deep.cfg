SPECIFICATION Spec
CONSTANTS
  MaxM = 70
  MaxE = 40
  MaxB = 80
INVARIANTS Invariant Result FileRight Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
