SPECIFICATION Spec
CONSTANTS
  Policies = {"p1", "p2", "p3"}
  NumVersions = 7
  Paths <- MCPaths
  Methods = {"GET", "POST"}
VIEW View
INVARIANTS OnlyLiveDecide
PROPERTIES OthersKeepProtecting Locality
CHECK_DEADLOCK FALSE
