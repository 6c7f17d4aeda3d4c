SPECIFICATION Spec
CONSTANTS Scene = "table"
MaxLen = 5
MaxBad = 1
Emits = TRUE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
