SPECIFICATION Spec
CONSTANTS Depth = 2 Samples = 3 What = "lower"
INVARIANTS StoreLoad LowerLift Agree Emit
CHECK_DEADLOCK FALSE
