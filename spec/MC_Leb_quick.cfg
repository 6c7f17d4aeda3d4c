SPECIFICATION Spec
CONSTANTS
  ByteLen = 5
  Wide = FALSE
INVARIANTS IntLaws ByteLaws Emit
CHECK_DEADLOCK FALSE
