SPECIFICATION Spec
INVARIANTS Bounded Adjacent Lowest Exact Best Digits Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
