CONSTANTS
  KINDS = "all"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Agree Untouched Released LocksUsed
