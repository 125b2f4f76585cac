SPECIFICATION Spec
CONSTANTS
  NS = {"A", "B"}
  NumJwt = 1
  NumOidc = 1
  PolicyKinds = {"none", "jwt", "oidc", "jwt-t", "oidc-t", "mixed2", "foreign"}
VIEW View
INVARIANTS FailClosed ServiceIsolation NoForeignCredentials
PROPERTIES Isolation
CHECK_DEADLOCK FALSE
