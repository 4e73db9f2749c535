INIT Init
NEXT Next
POSTCONDITION Summary
CHECK_DEADLOCK FALSE
