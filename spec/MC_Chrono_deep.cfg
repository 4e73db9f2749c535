CONSTANTS MaxTick = 4
Nums = {1, 2, 3, 5, 60}
Dens = {1, 2, 3, 7, 10}
Steps = 2
INIT Init
NEXT Next
INVARIANTS Exact Reversible Ordered Differences Scales CommonDivides
CHECK_DEADLOCK FALSE
