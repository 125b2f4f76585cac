SPECIFICATION Spec
CONSTANTS
  Method <- SmallMethod
  Ref <- SmallRef
  Value <- SmallValue
  KEEP = FALSE
  PLAIN = FALSE
  GIVEUP = FALSE
  BYID = FALSE
INVARIANTS TypeOK Right Own Determined NoAnswerWithoutLogin
CHECK_DEADLOCK FALSE
VIEW View
