SPECIFICATION Spec
CONSTANTS
  TinyMax = 300
  Wide = FALSE
INVARIANTS TinyLaw MidLaw IntLaw Emit
CHECK_DEADLOCK FALSE
