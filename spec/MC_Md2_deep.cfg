SPECIFICATION Spec
CONSTANTS
  Algs = {"md2"}
  Patterns = {0,1,2,3,4,9,77}
  Blocks = 20
INVARIANTS BufferRight IsDigest Size Emit
CHECK_DEADLOCK FALSE
