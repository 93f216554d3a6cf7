SPECIFICATION Spec
CONSTANTS
  Algs = {"sha384","sha512"}
  Patterns = {0,1,2,3,4}
  Blocks = 5
INVARIANTS BufferRight IsDigest Size Emit
CHECK_DEADLOCK FALSE
