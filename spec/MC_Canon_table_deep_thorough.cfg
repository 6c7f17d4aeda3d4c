SPECIFICATION Spec
CONSTANTS Scene = "table"
MaxLen = 7
MaxBad = 2
Emits = FALSE
VIEW View
INVARIANTS Laws
CHECK_DEADLOCK FALSE
