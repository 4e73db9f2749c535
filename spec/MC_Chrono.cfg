CONSTANTS MaxTick = 2
Nums = {1, 3}
Dens = {1, 2, 5}
Steps = 2
INIT Init
NEXT Next
INVARIANTS Exact Reversible Ordered Differences Scales CommonDivides
CHECK_DEADLOCK FALSE
