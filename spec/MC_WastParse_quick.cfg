SPECIFICATION Spec
CONSTANTS
  MaxLen = 9
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
