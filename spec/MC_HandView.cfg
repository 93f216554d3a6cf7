INIT Init
NEXT Next
VIEW Handless
POSTCONDITION Blind
CHECK_DEADLOCK FALSE
