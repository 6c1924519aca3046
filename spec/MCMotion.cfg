SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  LMAX = 2
  WEIGHTS <- Wq
INVARIANTS Ignored Between Nothing Order Scaled Single
