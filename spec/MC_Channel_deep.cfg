INIT Init
NEXT Next
CONSTANTS Count = 3
CONSTRAINT Bound
INVARIANT Fifo
CHECK_DEADLOCK FALSE
