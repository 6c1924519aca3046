SPECIFICATION PlanSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  SLOTS = {1, 2}
  KINDS = {"context", "skeleton", "animation", "track"}
  COUNTS = {0, 1, 5, 33}
  MAXB = 1
