SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3}
  Runs = 3
  Draws = 6
  Atomic = FALSE
  Fresh = TRUE
INVARIANT NeverRepeated
CHECK_DEADLOCK FALSE
