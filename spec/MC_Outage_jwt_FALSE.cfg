SPECIFICATION Spec
CONSTANTS Kind = "jwt"
  Sticky = FALSE
PROPERTIES Served NeverThrough Nowhere KeptOnceUsed
VIEW View
CHECK_DEADLOCK FALSE
