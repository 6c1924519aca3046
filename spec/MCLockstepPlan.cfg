SPECIFICATION PlanSpec
CONSTANT Depth = 0
CHECK_DEADLOCK FALSE
