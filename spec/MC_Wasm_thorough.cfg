SPECIFICATION Spec
CONSTANTS
  MaxTypes = 2
  MaxFuncs = 2
  MaxExports = 1
  MaxBody = 1
  Wide = TRUE
INVARIANT Laws
CHECK_DEADLOCK FALSE
