INIT Init
NEXT Next
CONSTANTS
  MaxLines = 4
  Menu = {"beginA", "beginB", "endA", "endAws", "beginCut", "endCut", "group", "half", "last", "blank", "text"}
INVARIANTS ScannerRight Incremental NoiseFree LineEnds Emit
PROPERTY Doomed
CHECK_DEADLOCK FALSE
