SPECIFICATION Spec
CONSTANT T = 3
INVARIANTS Correct KeyTimes
