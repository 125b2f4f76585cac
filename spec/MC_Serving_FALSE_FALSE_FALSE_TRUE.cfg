SPECIFICATION Spec
CONSTANTS
  CRASH = FALSE
  PASS = FALSE
  WEDGE = FALSE
  STICK = TRUE
INVARIANTS TypeOK KeepsServing NotFooled
PROPERTIES Answers Recovered Settles
CHECK_DEADLOCK FALSE
