SPECIFICATION Spec
CONSTANTS Kind = "jwt"
  Sticky = TRUE
PROPERTIES Served NeverThrough Nowhere KeptOnceUsed
VIEW View
CHECK_DEADLOCK FALSE
