SPECIFICATION Spec
CONSTANTS
  N = 3
  Guarded = FALSE
  Locked = TRUE
INVARIANT LogoutIsFinal
PROPERTY Finishes
CHECK_DEADLOCK FALSE
