SPECIFICATION SSpec
CONSTANTS
  MaxLogins = 60
  MaxSessions = 60
  Sampling = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
