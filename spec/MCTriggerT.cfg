SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  T = 16
  INNER = {4, 8, 12}
  VALS = {0, 2, 4}
  THS = {0, 1, 2, 3}
  STRIDE = 4
  SPAN = 36
INVARIANTS Exact Bounded
