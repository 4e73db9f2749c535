CONSTANTS Count = 3  MaxLen = 6
INIT Init
NEXT Next
INVARIANTS ReadsBack Progress Typed
CHECK_DEADLOCK FALSE
