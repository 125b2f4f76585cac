SPECIFICATION Spec
CONSTANT MaxRounds = 4
VIEW View
INVARIANT EmitState
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
