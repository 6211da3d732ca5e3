SPECIFICATION Spec
INVARIANTS Refines Ordered HasParents MaxRight Isolated Emit
CHECK_DEADLOCK FALSE
