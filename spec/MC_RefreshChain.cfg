SPECIFICATION Spec
CONSTANT MaxRounds = 4
VIEW View
PROPERTIES ExpiredNeverPasses BadNeverPasses RefreshKept
CHECK_DEADLOCK FALSE
