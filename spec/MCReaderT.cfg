SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  BYTES = {0, 2, 195, 169}
  NB = 5
  NOPS = 2
INVARIANTS Faithful Consumed Ends
