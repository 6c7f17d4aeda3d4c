SPECIFICATION Spec
CONSTANTS
  MaxLen = 8
INVARIANTS Laws
CHECK_DEADLOCK FALSE
