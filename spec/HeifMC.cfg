SPECIFICATION Spec
INVARIANTS Refines ExifData Tiled InBoxes Natural BaseOnly Forgets Emit
CHECK_DEADLOCK FALSE
