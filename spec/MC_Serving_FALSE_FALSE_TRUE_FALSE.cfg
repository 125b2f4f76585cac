SPECIFICATION Spec
CONSTANTS
  CRASH = FALSE
  PASS = FALSE
  WEDGE = TRUE
  STICK = FALSE
INVARIANTS TypeOK KeepsServing NotFooled
PROPERTIES Answers Recovered Settles
CHECK_DEADLOCK FALSE
