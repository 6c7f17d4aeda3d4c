SPECIFICATION Spec
CONSTANTS Depth = 1 What = "flat"
INVARIANTS LayoutLaws FlatLaws Emit
CHECK_DEADLOCK FALSE
