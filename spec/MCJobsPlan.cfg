CONSTANTS
  KINDS = "all"
SPECIFICATION PlanSpec
CHECK_DEADLOCK FALSE
