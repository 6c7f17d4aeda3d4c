SPECIFICATION Spec
CONSTANTS Scene = "own"
MaxLen = 6
MaxBad = 1
Emits = FALSE
VIEW View
INVARIANTS Laws
CHECK_DEADLOCK FALSE
