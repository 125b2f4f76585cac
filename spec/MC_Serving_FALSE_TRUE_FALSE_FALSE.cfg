SPECIFICATION Spec
CONSTANTS
  CRASH = FALSE
  PASS = TRUE
  WEDGE = FALSE
  STICK = FALSE
INVARIANTS TypeOK KeepsServing NotFooled
PROPERTIES Answers Recovered Settles
CHECK_DEADLOCK FALSE
