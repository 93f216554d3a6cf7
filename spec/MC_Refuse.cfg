INIT Init
NEXT Next
CONSTANTS
  Lengths = {0, 1, 2, 5, 16, 127, 128, 129, 130, 255, 256, 257, 384, 512}
  BitCounts = {0, 1, 7, 8, 9, 63, 64, 1015, 1023, 1024, 1025, 1032, 2048}
  RoundCounts = {0, 1, 12, 255}
INVARIANTS RefusedExactly NothingLeft Emit
CHECK_DEADLOCK FALSE
