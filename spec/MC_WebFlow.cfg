SPECIFICATION Spec
CONSTANTS
  MaxLogins = 2
  MaxSessions = 1
  Sampling = FALSE
VIEW View
PROPERTIES PassesAreSessions OnlyCompletedLogins NoStrayExchange EndedStaysEnded OthersUnaffected LogoutEnds
CHECK_DEADLOCK FALSE
