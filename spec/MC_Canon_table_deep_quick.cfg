SPECIFICATION Spec
CONSTANTS Scene = "table"
MaxLen = 5
MaxBad = 1
Emits = FALSE
VIEW View
INVARIANTS Laws
CHECK_DEADLOCK FALSE
