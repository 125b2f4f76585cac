SPECIFICATION Fair
CONSTANTS Instances = {a, b}
  MaxKeys = 6
  Tries = 2
  UseUnstored = FALSE
  Replace = FALSE
INVARIANT Safe
PROPERTY Kept Resumes
CHECK_DEADLOCK FALSE
