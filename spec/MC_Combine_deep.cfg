CONSTANTS PolicySet = {"safe", "fast", "safe_io"}
RepSet = {"int"}
MaxLen = 6
INIT Init
NEXT Next
INVARIANTS NeverMixed ResultPolicy Complete Agree MacrosDistinct
CHECK_DEADLOCK FALSE
