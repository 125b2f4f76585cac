SPECIFICATION Spec
CONSTANTS
  Kids = {"kid1", "kid2", "kid3"}
  Keys = {"A", "B"}
VIEW View
PROPERTIES NewKeyAccepted HeldKeyAccepted FailureCostsNothing FetchReplaces NeverUnpublished
CHECK_DEADLOCK FALSE
