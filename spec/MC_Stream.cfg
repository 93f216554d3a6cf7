INIT Init
NEXT Next
CONSTANTS
  MaxKeys = 5
  MaxPiece = 3
  MaxCalls = 3
  MaxPicks = 2
INVARIANTS PositionLaw Remaining RunOut Restores Emit
CHECK_DEADLOCK FALSE
