SPECIFICATION Spec
CONSTANTS
  ByteLen = 4
  Codecs = {"utf-8", "utf-16-le", "utf-16-be", "latin1"}
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
