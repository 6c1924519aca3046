SPECIFICATION Spec
CONSTANT T = 4
INVARIANTS Correct KeyTimes
