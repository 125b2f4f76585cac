SPECIFICATION Spec
CONSTANT N = 3
VIEW View
INVARIANT EmitState
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
