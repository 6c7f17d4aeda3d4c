SPECIFICATION Spec
CONSTANTS Depth = 2 What = "flat"
INVARIANTS LayoutLaws FlatLaws Emit
CHECK_DEADLOCK FALSE
