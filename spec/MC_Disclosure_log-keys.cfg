SPECIFICATION Spec
CONSTANTS
  Clients = {"A", "B", "C"}
  Defects = {"log-keys"}
INVARIANTS OnlyAsMeant NothingInTheLog PassesAreSessions
CHECK_DEADLOCK FALSE
