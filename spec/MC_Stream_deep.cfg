INIT Init
NEXT Next
CONSTANTS
  MaxKeys = 6
  MaxPiece = 3
  MaxCalls = 4
  MaxPicks = 1
INVARIANTS PositionLaw Remaining RunOut Restores Emit
CHECK_DEADLOCK FALSE
