SPECIFICATION Spec
CONSTANTS
  Clients = {"A", "B", "C"}
  Defects = {}
INVARIANTS OnlyAsMeant NothingInTheLog PassesAreSessions
CHECK_DEADLOCK FALSE
