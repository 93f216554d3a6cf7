SPECIFICATION Spec
CONSTANTS
  BlockBytes = 4
  LenBytes = 2
  MaxLen = 11
  Alphabet = {0, 128, 7}
INVARIANTS BufferRight IsAbsorb IsFromMid Minimal Injective
CHECK_DEADLOCK FALSE
