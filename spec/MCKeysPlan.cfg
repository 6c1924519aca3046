SPECIFICATION PlanSpec
CHECK_DEADLOCK FALSE
