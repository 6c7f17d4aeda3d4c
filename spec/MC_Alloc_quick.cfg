SPECIFICATION Spec
CONSTANT Faults = 2
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
