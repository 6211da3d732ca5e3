SPECIFICATION Spec
INVARIANTS Good Emit
CHECK_DEADLOCK FALSE
