SPECIFICATION Spec
CONSTANTS Scene = "lend"
MaxLen = 8
MaxBad = 2
Emits = FALSE
VIEW View
INVARIANTS Laws
CHECK_DEADLOCK FALSE
