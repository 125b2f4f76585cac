SPECIFICATION Spec
CONSTANTS Atomic = TRUE
  Ordered = FALSE
PROPERTY OneOfBoth
INVARIANT NeverOpen
INVARIANT NoMixture
CHECK_DEADLOCK FALSE
