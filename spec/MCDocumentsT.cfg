SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  KINDS = {"context", "skeleton", "animation", "track"}
  COUNTS = {1, 37}
  DEPTH = 3
INVARIANTS Whole Consistent Sound Noticed
