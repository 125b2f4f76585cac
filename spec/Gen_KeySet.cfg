SPECIFICATION Spec
CONSTANTS
  Kids = {"kid1", "kid2"}
  Keys = {"A", "B"}
VIEW View
INVARIANTS EmitState
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
