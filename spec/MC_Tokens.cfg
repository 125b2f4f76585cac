SPECIFICATION Spec
INVARIANTS Sound NoForgery OnlyOidcAsks ExpiredNeverPasses
PROPERTY Terminates
CHECK_DEADLOCK FALSE
