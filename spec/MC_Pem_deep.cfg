INIT Init
NEXT Next
CONSTANTS
  MaxLines = 4
  Menu = {"beginA", "beginB", "endA", "endB", "beginAws", "endAws", "beginCut", "endCut", "beginTail", "group", "groupWs", "half", "last", "loose", "inner", "empty", "blank", "text", "dashes"}
INVARIANTS ScannerRight Incremental NoiseFree LineEnds Emit
PROPERTY Doomed
CHECK_DEADLOCK FALSE
