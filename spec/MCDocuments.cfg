SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  KINDS = {"context", "skeleton", "animation", "track"}
  COUNTS = {0, 1, 5, 33}
  DEPTH = 2
INVARIANTS Whole Consistent Sound Noticed
