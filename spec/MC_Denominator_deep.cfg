CONSTANTS Max = 16
Depth = 6
SPECIFICATION Spec
INVARIANTS Denotes OverDenotes QuotientDenotes Chains
CHECK_DEADLOCK FALSE
