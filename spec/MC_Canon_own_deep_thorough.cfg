SPECIFICATION Spec
CONSTANTS Scene = "own"
MaxLen = 7
MaxBad = 2
Emits = FALSE
VIEW View
INVARIANTS Laws
CHECK_DEADLOCK FALSE
