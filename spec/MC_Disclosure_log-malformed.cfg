SPECIFICATION Spec
CONSTANTS
  Clients = {"A", "B", "C"}
  Defects = {"log-malformed"}
INVARIANTS OnlyAsMeant NothingInTheLog PassesAreSessions
CHECK_DEADLOCK FALSE
