SPECIFICATION Spec
CONSTANTS
  MaxTypes = 1
  MaxFuncs = 2
  MaxExports = 1
  MaxBody = 1
  Wide = FALSE
INVARIANT Laws
CHECK_DEADLOCK FALSE
