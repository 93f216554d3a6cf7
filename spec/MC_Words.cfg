INIT Init
NEXT Next
CONSTANT Limbs = {0, 32769, 65535}
INVARIANTS Rotations Shifts Logic Sums Bytes
CHECK_DEADLOCK FALSE
