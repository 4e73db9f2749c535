CONSTANTS W = 2  K = 4  Ops = 1  Pols = {"safe_io", "fast"}
INIT Init
NEXT Next
INVARIANTS ValueKept Folded Ready Together
CHECK_DEADLOCK FALSE
