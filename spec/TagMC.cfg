SPECIFICATION Spec
INVARIANTS Stable Once Tree Emit
CHECK_DEADLOCK FALSE
