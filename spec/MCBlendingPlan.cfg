SPECIFICATION PlanSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  NL = 3
  WS <- WSq
  JWS <- JWSq
  THS = {1, 3, 9}
