CONSTANTS MaxLen = 6  Alphabet = {48, 57, 46, 39, 69, 88, 112, 45, 102}
INIT Init
NEXT Next
INVARIANTS SameLanguage SameValue DeadStays Hopeful CaseBlind
CHECK_DEADLOCK FALSE
