SPECIFICATION Spec
INVARIANT Report
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
