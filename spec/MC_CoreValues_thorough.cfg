SPECIFICATION Spec
CONSTANTS
  MaxVals = 2
  MaxView = 2
  MaxTakes = 3
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
