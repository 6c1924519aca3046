SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  SLOTS = {1, 2, 3}
  KINDS = {"context", "skeleton", "animation", "track"}
  COUNTS = {0, 1, 5, 33}
  MAXB = 11
INVARIANTS Exact NoStray Apiece Sound
