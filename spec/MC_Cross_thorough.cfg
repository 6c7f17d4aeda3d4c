SPECIFICATION Spec
CONSTANTS Wide = TRUE
Pairs = TRUE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
