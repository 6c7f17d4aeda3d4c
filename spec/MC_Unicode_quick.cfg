SPECIFICATION Spec
CONSTANTS StrLen = 2 ByteLen = 3
INVARIANTS TextLaws ByteLaws Emit
CHECK_DEADLOCK FALSE
