SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Copyable <- MCopyable
  Comparable <- MComparable
  NothrowMove <- MNothrowMove
  Tracked <- MTracked
  SelfType <- MSelfType
  Pocca <- MPocca
  Pocma <- MPocma
  Pocs <- MPocs
  AlwaysEq <- MAlwaysEq
  Soccc <- MSoccc
  MaxSize <- MMaxSize
