CONSTANTS
  Ins = {"a"}
  Design = "hold"
  MaxAct = 0
  PlanLen = 4
SPECIFICATION PlanSpec
CHECK_DEADLOCK FALSE
