SPECIFICATION Spec
CONSTANTS Scene = "table"
MaxLen = 4
MaxBad = 1
Emits = TRUE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
