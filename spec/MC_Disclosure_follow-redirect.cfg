SPECIFICATION Spec
CONSTANTS
  Clients = {"A", "B", "C"}
  Defects = {"follow-redirect"}
INVARIANTS OnlyAsMeant NothingInTheLog PassesAreSessions
CHECK_DEADLOCK FALSE
