SPECIFICATION Spec
INVARIANTS Bounded Once RefuseOnlyCycles Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
