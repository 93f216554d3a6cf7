INIT Init
NEXT Next
CONSTANT Programs = {1, 2, 3, 4}
VIEW Unordered
POSTCONDITION Independent
CHECK_DEADLOCK FALSE
