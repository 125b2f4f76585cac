SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  Budget = 3
  Pool = 1
  Defects = {}
INVARIANTS ConnectionsInUse TasksAtWork HoldsWhatIsConfigured OneSetPerSession NothingElse
PROPERTIES Ends_
CHECK_DEADLOCK FALSE
