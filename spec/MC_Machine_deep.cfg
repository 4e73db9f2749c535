SPECIFICATION Spec
CONSTANTS Word = 40
          Steps = 3
          Policies = {"safe_io", "safe", "fast", "fast_o", "safe_i", "safe_on", "fast_in"}
          Consts <- ConstSet
          Starts <- StartSet
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Refines
PROPERTIES Sticky Promised Frame
