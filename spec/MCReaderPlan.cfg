SPECIFICATION PlanSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  BYTES = {0, 2, 195, 169}
  NB = 4
  NOPS = 2
