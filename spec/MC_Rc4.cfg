INIT Init
NEXT Next
CONSTANTS
  W = 4
  MaxKey = 5
INVARIANTS IsPermutation Counts OutputInRange Reversible Splits KeyPrefix
CHECK_DEADLOCK FALSE
