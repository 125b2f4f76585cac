SPECIFICATION Spec
CONSTANTS
  NS = {"n1"}
  Sampling = FALSE
VIEW View
INVARIANTS Exactly Determined ClosedAtFirst
PROPERTIES KeepsWhileDown ForgetsOldOnRecovery
CHECK_DEADLOCK FALSE
