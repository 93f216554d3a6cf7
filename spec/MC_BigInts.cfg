INIT Init
NEXT Next
CONSTANTS
  Values = {0, 1, 2, 3, 7, 16, 127, 128, 255, 256, 257, 511, 512, 1000, 32767, 39999, 65535, 65536, 65537, 131072, 8388607, 16777215, 16777216, 16777217, 1000000000}
  Small = {0, 1, 2, 3, 5, 8, 13}
INVARIANTS Canonical Sums Products Bits Shifts Powers
CHECK_DEADLOCK FALSE
