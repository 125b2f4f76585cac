SPECIFICATION Spec
INVARIANT Export
CHECK_DEADLOCK FALSE
