SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  T = 16
  INNER = {4, 8}
  VALS = {0, 2}
  THS = {0, 1}
  STRIDE = 2
  SPAN = 20
INVARIANTS Exact Bounded
