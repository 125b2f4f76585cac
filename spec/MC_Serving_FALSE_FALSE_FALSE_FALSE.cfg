SPECIFICATION Spec
CONSTANTS
  CRASH = FALSE
  PASS = FALSE
  WEDGE = FALSE
  STICK = FALSE
INVARIANTS TypeOK KeepsServing NotFooled
PROPERTIES Answers Recovered Settles
CHECK_DEADLOCK FALSE
