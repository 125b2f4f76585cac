SPECIFICATION Spec
CONSTANTS Atomic = FALSE
  Ordered = FALSE
PROPERTY OneOfBoth
INVARIANT NeverOpen

CHECK_DEADLOCK FALSE
