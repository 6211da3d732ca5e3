SPECIFICATION Spec
INVARIANTS Outcome Kept Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
