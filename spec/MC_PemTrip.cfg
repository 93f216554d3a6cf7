INIT Init
NEXT Next
CONSTANT MaxLen = 100
INVARIANTS Trip Shape Base64Trip Emit
CHECK_DEADLOCK FALSE
