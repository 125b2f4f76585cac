SPECIFICATION Spec
CONSTANTS
  MaxLogins = 3
  MaxSessions = 2
  Sampling = FALSE
VIEW View
PROPERTIES PassesAreSessions OnlyCompletedLogins NoStrayExchange EndedStaysEnded OthersUnaffected LogoutEnds
CHECK_DEADLOCK FALSE
