SPECIFICATION Spec
INVARIANTS Invertible Exact Guarded Emit
CHECK_DEADLOCK FALSE
