SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  T = 8
  INNER = {2, 4}
  VALS = {0, 2}
  THS = {0, 1}
  STRIDE = 1
  SPAN = 10
INVARIANTS Exact Prefix Bounded GridOk Alternate Ordered Mirrored Splits NetOk
