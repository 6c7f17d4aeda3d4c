SPECIFICATION Spec
CONSTANTS Depth = 1 What = "layout"
INVARIANTS LayoutLaws FlatLaws Emit
CHECK_DEADLOCK FALSE
