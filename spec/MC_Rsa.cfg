SPECIFICATION Spec
CONSTANTS
  Primes = {2, 3, 5, 7, 11, 13, 17, 19, 23}
  MaxE = 40
INVARIANTS Bezout Bounded IsInverse Exists Undo CallRight Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
