CONSTANTS
  Ins = {"a"}
  Design = "hold"
  MaxAct = 0
  PlanLen = 5
SPECIFICATION PlanSpec
CHECK_DEADLOCK FALSE
