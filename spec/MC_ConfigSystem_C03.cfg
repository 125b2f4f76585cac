SPECIFICATION Spec
CONSTANTS
  NS = {"A"}
  NumJwt = 2
  NumOidc = 2
  PolicyKinds = {"none", "jwt", "oidc", "unsupported", "dangling", "dangling-oidc", "mixed", "mixed2", "second", "both"}
VIEW View
INVARIANTS FailClosed ServiceIsolation NoForeignCredentials
PROPERTIES Isolation
CHECK_DEADLOCK FALSE
