SPECIFICATION Spec
INVARIANTS Frugal Inside Answer Untouched Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
