INIT Init
NEXT Next
CONSTANT Limbs = {0, 1, 32768, 65535, 23100}
INVARIANTS Rotations Shifts Logic Sums Bytes
CHECK_DEADLOCK FALSE
