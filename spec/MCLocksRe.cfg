CONSTANTS
  Ins = {"a", "b"}
  Design = "recheck"
  MaxAct = 4
  PlanLen = 0
SPECIFICATION Spec
INVARIANTS Outcome Nothing UntouchedButWindow Exclusive
PROPERTY Ends
