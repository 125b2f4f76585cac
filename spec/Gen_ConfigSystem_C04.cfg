SPECIFICATION Spec
CONSTANTS
  NS = {"A", "B"}
  NumJwt = 1
  NumOidc = 1
  PolicyKinds = {"none", "jwt", "oidc", "jwt-t", "oidc-t", "mixed2", "foreign"}
VIEW View
INVARIANTS EmitState
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
