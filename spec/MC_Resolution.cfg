SPECIFICATION Spec
CONSTANTS
  Segs = {"a", "b"}
  MaxDepth = 2
  MaxEntries = 2
  EMethods = {"ALL", "GET", "POST"}
  RMethods = {"GET", "POST", "HEAD"}
INVARIANTS WalkIsDecide TiesAreSameEndpoint NothingHidden
PROPERTIES AddKeepsProtection RemoveOnlyAffectsDecided
CHECK_DEADLOCK FALSE
