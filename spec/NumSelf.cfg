SPECIFICATION Spec
CONSTANTS
  K = 24
  E = {3, 15, 16, 30, 31, 32, 33, 53, 62, 63, 64, 65, 100, 127}
INVARIANTS Agree Normal Ring Order Division Gcd Power Boundary
CHECK_DEADLOCK FALSE
