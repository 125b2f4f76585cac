SPECIFICATION Spec
CONSTANTS Atomic = FALSE
  Ordered = TRUE
PROPERTY OneOfBoth
INVARIANT NeverOpen

CHECK_DEADLOCK FALSE
