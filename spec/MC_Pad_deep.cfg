INIT Init
NEXT Next
CONSTANTS
  MaxN = 4
  Alphabet = {0, 1, 2, 3, 4, 5, 128, 255}
INVARIANTS PadInverted UnpadExact TooLongRefused Emit
CHECK_DEADLOCK FALSE
