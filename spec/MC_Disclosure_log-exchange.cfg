SPECIFICATION Spec
CONSTANTS
  Clients = {"A", "B", "C"}
  Defects = {"log-exchange"}
INVARIANTS OnlyAsMeant NothingInTheLog PassesAreSessions
CHECK_DEADLOCK FALSE
