SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANT Agrees
CHECK_DEADLOCK FALSE
