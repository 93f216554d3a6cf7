SPECIFICATION Spec
CONSTANTS
  Ns = {1, 2, 3}
  MaxLen = 4
  Alphabet = {0, 1, 2, 3}
  Modes = {"ecb", "cbc", "ctr"}
INVARIANTS RoundTrip NeverRefusesOwn EncIsMode DecIsMode AcceptExact NoEarlyRelease Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
