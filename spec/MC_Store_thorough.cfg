SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Laws Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
