SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Alphabet = {0, 1, 2, 3, 5, 48, 128, 129, 130}
INVARIANTS InBounds MachineRight GrammarExact Unambiguous Emit
PROPERTIES Forward Ends
CHECK_DEADLOCK FALSE
