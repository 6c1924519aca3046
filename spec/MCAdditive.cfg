SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  LMAX = 3
INVARIANTS Rotations Composes Untouched Restores Commutes
