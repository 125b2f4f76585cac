CONSTANTS
  KEEP = FALSE
  PLAIN = FALSE
  GIVEUP = FALSE
  BYID = FALSE
INIT Init
NEXT GNext
CHECK_DEADLOCK FALSE
