SPECIFICATION Spec
CONSTANTS Kind = "oidc"
  Sticky = TRUE
PROPERTIES Served NeverThrough Nowhere KeptOnceUsed
VIEW View
CHECK_DEADLOCK FALSE
