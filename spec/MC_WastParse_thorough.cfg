SPECIFICATION Spec
CONSTANTS
  MaxLen = 12
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
