CONSTANTS Max = 70
INIT Init
NEXT Next
INVARIANTS NothingBeyond Attained DigitsRight
CHECK_DEADLOCK FALSE
