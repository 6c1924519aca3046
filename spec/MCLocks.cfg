CONSTANTS
  Ins = {"a", "b"}
  Design = "hold"
  MaxAct = 4
  PlanLen = 0
SPECIFICATION Spec
INVARIANTS Outcome Nothing Untouched Exclusive
PROPERTY Ends
