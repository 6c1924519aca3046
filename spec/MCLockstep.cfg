SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS NoFaultAgrees Visible
CHECK_DEADLOCK FALSE
