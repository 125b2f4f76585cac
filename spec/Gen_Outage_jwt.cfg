SPECIFICATION Spec
CONSTANTS Kind = "jwt"
  Sticky = FALSE
VIEW View
INVARIANT EmitState
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
