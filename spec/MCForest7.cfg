SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT NMAX = 7
INVARIANTS Increasing ParentsFirst Exact Leaf WellFormed
