SPECIFICATION Spec
CONSTANT Validity = "none"
INVARIANT TypeOK
PROPERTIES Anew Entitled
CHECK_DEADLOCK FALSE
