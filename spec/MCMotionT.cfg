SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  LMAX = 3
  WEIGHTS <- Wt
INVARIANTS Ignored Between Nothing Order Scaled Single
