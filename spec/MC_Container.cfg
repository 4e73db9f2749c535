CONSTANTS Steps = 3  ByForm = FALSE
INIT Init
NEXT Next
INVARIANTS Agree NoEqualKeys
CHECK_DEADLOCK FALSE
