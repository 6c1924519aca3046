SPECIFICATION Spec
CONSTANTS Depth = 5
          Far = 2500
INVARIANTS Circle Reduced Double Inverse Known Addition
CHECK_DEADLOCK FALSE
