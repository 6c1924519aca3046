SPECIFICATION PlanSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  NMAX = 7
  VMAX = 5
