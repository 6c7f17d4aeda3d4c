SPECIFICATION Spec
CONSTANTS
  TextLen = 4
  WordLen = 5
  OpsLen = 5
INVARIANTS TextLaws WordLaws Emit
CHECK_DEADLOCK FALSE
