SPECIFICATION Spec
CONSTANTS
  Clients = {"A", "B", "C"}
  Defects = {"answer-refresh"}
INVARIANTS OnlyAsMeant NothingInTheLog PassesAreSessions
CHECK_DEADLOCK FALSE
