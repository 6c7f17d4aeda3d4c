SPECIFICATION Spec
CONSTANTS Depth = 1 Samples = 2 What = "store"
INVARIANTS StoreLoad LowerLift Agree Emit
CHECK_DEADLOCK FALSE
