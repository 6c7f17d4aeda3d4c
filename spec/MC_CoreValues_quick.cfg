SPECIFICATION Spec
CONSTANTS
  MaxVals = 2
  MaxView = 1
  MaxTakes = 2
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
