SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  KINDS = {"context", "skeleton", "animation", "track"}
  COUNTS = {5}
  DEPTH = 2
