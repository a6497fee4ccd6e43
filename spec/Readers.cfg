SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoRace Exact
PROPERTY Unchanged
CONSTANTS
  Threads = {1, 2}
  Types = {0, 1}
  Aliases = {0, 1}
  NBuckets = 2
  Lookups = 2
  Memo = FALSE
