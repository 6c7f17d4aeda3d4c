SPECIFICATION Spec
CONSTANTS
  TextLen = 5
  WordLen = 6
  OpsLen = 6
INVARIANTS TextLaws WordLaws Emit
CHECK_DEADLOCK FALSE
