SPECIFICATION Spec
CONSTANTS GUARD = "all"
PROPERTIES Pure Fresh Frame
CHECK_DEADLOCK FALSE
