SPECIFICATION Spec
CONSTANTS Kinds = {"login", "callbackopaque"} N = 2 Limit = 1 MaxAge = 3 Bounded = TRUE OneLock = FALSE Waits = FALSE Trusts = TRUE
INVARIANTS Answered OthersUnaffected NeverThrough
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
