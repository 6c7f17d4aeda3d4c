SPECIFICATION Spec
CONSTANTS Scene = "calls"
MaxLen = 6
MaxBad = 2
Emits = FALSE
VIEW View
INVARIANTS Laws
CHECK_DEADLOCK FALSE
