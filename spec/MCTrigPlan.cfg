SPECIFICATION Spec
CONSTANTS Depth = 2
          Far = 2500
CHECK_DEADLOCK FALSE
