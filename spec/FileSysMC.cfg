SPECIFICATION Spec
INVARIANTS Own Independent Closed Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
