CONSTANTS Steps = 5  ByForm = FALSE
INIT Init
NEXT Next
INVARIANTS Agree NoEqualKeys
CHECK_DEADLOCK FALSE
