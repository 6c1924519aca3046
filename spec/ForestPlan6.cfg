SPECIFICATION PlanSpec
CHECK_DEADLOCK FALSE
CONSTANT NMAX = 6
