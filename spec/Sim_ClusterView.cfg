SPECIFICATION SSpec
CONSTANTS
  NS = {"n1", "n2", "n3", "n4"}
  Sampling = TRUE
  Depth = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
