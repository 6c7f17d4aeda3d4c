SPECIFICATION Spec
CONSTANTS
  MaxLen = 11
INVARIANTS Laws
CHECK_DEADLOCK FALSE
