SPECIFICATION Spec
CONSTANT Validity = "token"
INVARIANT TypeOK
PROPERTIES Anew Entitled
CHECK_DEADLOCK FALSE
