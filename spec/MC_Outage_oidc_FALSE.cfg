SPECIFICATION Spec
CONSTANTS Kind = "oidc"
  Sticky = FALSE
PROPERTIES Served NeverThrough Nowhere KeptOnceUsed
VIEW View
CHECK_DEADLOCK FALSE
