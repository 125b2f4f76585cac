SPECIFICATION Spec
CONSTANT Kinds = {"jwt", "opaque"}
VIEW View
PROPERTIES OnlyValidPasses ValidPasses
CHECK_DEADLOCK FALSE
