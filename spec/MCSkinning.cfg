SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NMAX = 7
  VMAX = 5
INVARIANTS Written Complete Caught Ends
