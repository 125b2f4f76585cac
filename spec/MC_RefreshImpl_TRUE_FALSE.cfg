SPECIFICATION Spec
CONSTANTS
  N = 3
  Guarded = TRUE
  Locked = FALSE
INVARIANT LogoutIsFinal
PROPERTY Finishes
CHECK_DEADLOCK FALSE
