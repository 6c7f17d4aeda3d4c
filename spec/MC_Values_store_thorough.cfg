SPECIFICATION Spec
CONSTANTS Depth = 2 Samples = 3 What = "store"
INVARIANTS StoreLoad LowerLift Agree Emit
CHECK_DEADLOCK FALSE
