SPECIFICATION Spec
CONSTANTS Wide = FALSE
Pairs = FALSE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
