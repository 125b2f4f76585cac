SPECIFICATION SSpec
CONSTANTS
  Validity = "none"
  Depth = 32
  Ticks = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
