INIT Init
NEXT Next
CONSTANTS Chars = {0, 9, 10, 32, 43, 45, 47, 48, 49, 57, 58, 64, 65, 66, 70, 71, 88, 95, 96, 97, 98, 102, 103, 120, 127}
INVARIANTS AcceptExact BytesRight WordsRight CaseBlind Emit
CHECK_DEADLOCK FALSE
