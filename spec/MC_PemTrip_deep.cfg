INIT Init
NEXT Next
CONSTANT MaxLen = 300
INVARIANTS Trip Shape Base64Trip Emit
CHECK_DEADLOCK FALSE
