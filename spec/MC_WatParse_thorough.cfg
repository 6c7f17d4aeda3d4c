SPECIFICATION Spec
CONSTANTS
  MaxLen = 8
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
