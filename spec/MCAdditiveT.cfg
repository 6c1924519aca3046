SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  LMAX = 4
INVARIANTS Rotations Composes Untouched Restores Commutes
