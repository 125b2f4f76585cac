SPECIFICATION Spec
CONSTANT Validity = "default"
INVARIANT TypeOK
PROPERTIES Anew Entitled
CHECK_DEADLOCK FALSE
