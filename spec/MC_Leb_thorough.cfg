SPECIFICATION Spec
CONSTANTS
  ByteLen = 7
  Wide = FALSE
INVARIANTS IntLaws ByteLaws Emit
CHECK_DEADLOCK FALSE
