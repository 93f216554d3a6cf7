SPECIFICATION Spec
CONSTANTS
  Primes = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47}
  MaxE = 120
INVARIANTS Bezout Bounded IsInverse Exists Undo CallRight Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
