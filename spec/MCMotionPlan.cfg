SPECIFICATION PlanSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  LMAX = 0
  WEIGHTS <- Wq
