SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
