SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Alphabet = {0, 1, 2, 3, 5, 48, 129}
INVARIANTS InBounds MachineRight GrammarExact Emit
PROPERTIES Forward Ends
CHECK_DEADLOCK FALSE
