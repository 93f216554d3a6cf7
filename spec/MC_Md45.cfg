SPECIFICATION Spec
CONSTANTS
  Algs = {"md4","md5"}
  Patterns = {0,1,2,3}
  Blocks = 3
INVARIANTS BufferRight IsDigest Size Emit
CHECK_DEADLOCK FALSE
