SPECIFICATION Spec
CONSTANTS
  Algs = {"sha384","sha512"}
  Patterns = {1,3}
  Blocks = 2
INVARIANTS BufferRight IsDigest Size Emit
CHECK_DEADLOCK FALSE
