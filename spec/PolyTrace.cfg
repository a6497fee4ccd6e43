SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Copyable <- TCopyable
  Comparable <- TComparable
  NothrowMove <- TNothrowMove
  Tracked <- TTracked
  SelfType <- TSelfType
  Pocca <- TPocca
  Pocma <- TPocma
  Pocs <- TPocs
  AlwaysEq <- TAlwaysEq
  Soccc <- TSoccc
  MaxSize <- TMaxSize
