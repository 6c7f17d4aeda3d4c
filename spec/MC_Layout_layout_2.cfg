SPECIFICATION Spec
CONSTANTS Depth = 2 What = "layout"
INVARIANTS LayoutLaws FlatLaws Emit
CHECK_DEADLOCK FALSE
