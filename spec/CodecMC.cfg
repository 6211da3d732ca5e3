SPECIFICATION Spec
INVARIANTS Right Sensitive Emit
CHECK_DEADLOCK FALSE
