SPECIFICATION Spec
INVARIANT Explained
CHECK_DEADLOCK FALSE
