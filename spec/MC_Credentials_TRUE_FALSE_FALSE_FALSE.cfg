SPECIFICATION Spec
CONSTANTS
  Method <- SmallMethod
  Ref <- SmallRef
  Value <- SmallValue
  KEEP = TRUE
  PLAIN = FALSE
  GIVEUP = FALSE
  BYID = FALSE
INVARIANTS TypeOK Right Own Determined NoAnswerWithoutLogin
CHECK_DEADLOCK FALSE
VIEW View
