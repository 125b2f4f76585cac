SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  Budget = 3
  Pool = 1
  Defects = {"kept-refreshed"}
INVARIANTS ConnectionsInUse TasksAtWork HoldsWhatIsConfigured OneSetPerSession NothingElse
CHECK_DEADLOCK FALSE
