SPECIFICATION Spec
CONSTANTS Kind = "oidc"
  Sticky = FALSE
VIEW View
INVARIANT EmitState
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
