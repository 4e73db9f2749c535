CONSTANTS Count = 2  MaxLen = 5
INIT Init
NEXT Next
INVARIANTS ReadsBack Progress Typed
CHECK_DEADLOCK FALSE
