SPECIFICATION Spec
CONSTANTS
  BlockBytes = 5
  LenBytes = 2
  MaxLen = 8
  Alphabet = {0, 128, 7}
INVARIANTS BufferRight IsAbsorb IsFromMid Minimal Injective
CHECK_DEADLOCK FALSE
