SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Inv
CONSTANTS
  MaxLen = 4
  MaxCap = 6
  Split = TRUE
  NothrowMove = FALSE
  Copyable = TRUE
  Guarded = TRUE
