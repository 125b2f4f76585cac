SPECIFICATION SSpec
CONSTANTS
  KEEP = FALSE
  PLAIN = FALSE
  GIVEUP = FALSE
  BYID = FALSE
  Depth = 26
  Ticks = 9
INVARIANT Emit
INVARIANTS TypeOK Right Own
CHECK_DEADLOCK FALSE
