SPECIFICATION Spec
INVARIANTS Agrees Monotone
CHECK_DEADLOCK FALSE
