CONSTANT Comp = 3
INIT Init
NEXT Next
INVARIANTS Commutes OneOfBoth Widens Keeps Associates
CHECK_DEADLOCK FALSE
