CONSTANTS PolicySet = {"safe", "fast"}
RepSet = {"int", "ulong"}
MaxLen = 5
INIT Init
NEXT Next
INVARIANTS NeverMixed ResultPolicy Complete Agree MacrosDistinct
CHECK_DEADLOCK FALSE
