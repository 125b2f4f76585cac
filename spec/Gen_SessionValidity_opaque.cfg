SPECIFICATION Spec
CONSTANT Kinds = {"opaque"}
VIEW View
INVARIANT EmitState
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
