SPECIFICATION Spec
CONSTANTS StrLen = 3 ByteLen = 4
INVARIANTS TextLaws ByteLaws Emit
CHECK_DEADLOCK FALSE
