SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OnElement Position Laws
PROPERTIES Steps Reaches
CONSTANTS
  NSeg = 4
  MaxLen = 2
