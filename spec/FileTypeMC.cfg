SPECIFICATION Spec
INVARIANTS Portable Kept Inert Distinct Spelled Emit
CHECK_DEADLOCK FALSE
