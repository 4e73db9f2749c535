CONSTANTS W = 2  K = 3  Ops = 2  Pols = {"safe_io", "safe", "fast", "safe_on"}
INIT Init
NEXT Next
INVARIANTS ValueKept Folded Ready Together
CHECK_DEADLOCK FALSE
