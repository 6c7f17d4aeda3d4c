SPECIFICATION Spec
CONSTANT Faults = 3
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
