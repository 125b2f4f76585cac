SPECIFICATION Spec
CONSTANTS
  Obj = {"a", "b"}
  V = 2
  MaxChanges = 4
  MaxFaults = 3
  ListOnlyAdds = FALSE
  FailedReadIsDelete = FALSE
  QueueHoldsItems = FALSE
INVARIANTS Converged NothingInvented
PROPERTIES KeepsLastKnown NeverGoneWhileThere EventuallyConverges
CHECK_DEADLOCK FALSE
