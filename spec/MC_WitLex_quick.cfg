SPECIFICATION Spec
CONSTANTS
  TextLen = 4
  OpsLen = 5
INVARIANTS TextLaws Emit
CHECK_DEADLOCK FALSE
