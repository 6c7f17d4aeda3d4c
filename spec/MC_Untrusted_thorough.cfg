SPECIFICATION Spec
CONSTANTS Cells = 8 Contents = {0, 1, 216}
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
