INIT Init
NEXT Next
CONSTANTS Count = 2
CONSTRAINT Bound
INVARIANT Fifo
CHECK_DEADLOCK FALSE
