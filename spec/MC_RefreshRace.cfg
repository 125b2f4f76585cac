SPECIFICATION Spec
CONSTANT N = 3
VIEW View
PROPERTIES NothingPassesAfterLogout NeverExpiredTokens
CHECK_DEADLOCK FALSE
