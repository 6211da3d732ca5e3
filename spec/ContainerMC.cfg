SPECIFICATION Spec
INVARIANTS Refines Placed OneCarrier NoCarrier Idempotent Forgets Undo Emit
CHECK_DEADLOCK FALSE
