SPECIFICATION Spec
CONSTANTS Contents = {"a", "b"}
  Requests = {r1, r2}
  MaxVersions = 3
  Stale = TRUE
INVARIANT Accepted
CHECK_DEADLOCK FALSE
