CONSTANTS Max = 7
Depth = 4
SPECIFICATION Spec
INVARIANTS Denotes OverDenotes QuotientDenotes Chains
CHECK_DEADLOCK FALSE
