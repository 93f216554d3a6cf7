INIT Init
NEXT Next
CONSTANTS
  MaxN = 3
  Alphabet = {0, 1, 2, 3, 4, 127, 128, 129, 255}
INVARIANTS PadInverted UnpadExact TooLongRefused Emit
CHECK_DEADLOCK FALSE
