INIT Init
NEXT Next
CONSTANTS
  Amounts = {0, 1, 7, 8, 9}
  MaxCalls = 2
  Ops = {"add", "sub", "rem", "addb", "shl", "shr", "set", "clear", "bit", "query"}
CONSTRAINT Bounded
INVARIANTS Denotes QueriesAgree NeverRefused Emit
CHECK_DEADLOCK FALSE
