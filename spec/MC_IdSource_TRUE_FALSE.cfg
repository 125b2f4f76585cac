SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3}
  Runs = 3
  Draws = 6
  Atomic = TRUE
  Fresh = FALSE
INVARIANT NeverRepeated
CHECK_DEADLOCK FALSE
