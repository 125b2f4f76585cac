SPECIFICATION Spec
CONSTANTS
  N = 3
  Guarded = TRUE
  Locked = TRUE
INVARIANT LogoutIsFinal
PROPERTY Finishes
CHECK_DEADLOCK FALSE
