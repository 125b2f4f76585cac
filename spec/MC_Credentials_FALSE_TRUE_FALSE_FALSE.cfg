SPECIFICATION Spec
CONSTANTS
  Method <- SmallMethod
  Ref <- SmallRef
  Value <- SmallValue
  KEEP = FALSE
  PLAIN = TRUE
  GIVEUP = FALSE
  BYID = FALSE
INVARIANTS TypeOK Right Own Determined NoAnswerWithoutLogin
CHECK_DEADLOCK FALSE
VIEW View
