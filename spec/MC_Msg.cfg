INIT Init
NEXT Next
INVARIANTS KeysMade TripRight OnlyValid Emit
CHECK_DEADLOCK FALSE
