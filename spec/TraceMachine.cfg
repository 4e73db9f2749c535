INIT Init
NEXT Next
INVARIANT Refines
POSTCONDITION Done
CHECK_DEADLOCK FALSE
