CONSTANTS MaxLen = 5  Alphabet = {48, 49, 46, 39, 101, 120, 112, 43, 45}
INIT Init
NEXT Next
INVARIANTS SameLanguage SameValue DeadStays Hopeful CaseBlind
CHECK_DEADLOCK FALSE
