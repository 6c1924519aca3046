SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NL = 4
  WS <- WSt
  JWS <- JWSt
  THS = {1, 3, 9}
INVARIANT Average
