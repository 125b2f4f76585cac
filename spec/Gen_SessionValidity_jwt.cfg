SPECIFICATION Spec
CONSTANT Kinds = {"jwt"}
VIEW View
INVARIANT EmitState
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
