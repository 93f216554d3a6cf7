SPECIFICATION Spec
CONSTANTS
  Algs = {"sha224","sha256"}
  Patterns = {0,1,2,3,4,9,77}
  Blocks = 6
INVARIANTS BufferRight IsDigest Size Emit
CHECK_DEADLOCK FALSE
