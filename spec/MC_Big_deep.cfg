INIT Init
NEXT Next
CONSTANTS
  Amounts = {0, 1, 8, 15}
  MaxCalls = 3
  Ops = {"add", "sub", "rem", "addb", "shl", "shr", "set", "clear", "bit", "query"}
CONSTRAINT Bounded
INVARIANTS Denotes QueriesAgree NeverRefused Emit
CHECK_DEADLOCK FALSE
