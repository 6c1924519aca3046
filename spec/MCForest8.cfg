SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT NMAX = 8
INVARIANTS Increasing ParentsFirst Exact Leaf WellFormed
