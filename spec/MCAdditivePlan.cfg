SPECIFICATION PlanSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  LMAX = 3
