SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  BYTES = {0, 1, 195, 169}
  NB = 3
  NOPS = 2
INVARIANTS Faithful Consumed Ends
