SPECIFICATION Spec
CONSTANTS
  TinyMax = 3000
  Wide = TRUE
INVARIANTS TinyLaw MidLaw IntLaw Emit
CHECK_DEADLOCK FALSE
