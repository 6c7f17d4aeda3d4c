SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Laws Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
