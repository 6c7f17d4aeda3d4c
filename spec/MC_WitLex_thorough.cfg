SPECIFICATION Spec
CONSTANTS
  TextLen = 5
  OpsLen = 6
INVARIANTS TextLaws Emit
CHECK_DEADLOCK FALSE
