SPECIFICATION Spec
INVARIANTS Slope Bend Symmetric Columns Linear Fisher Emit
CHECK_DEADLOCK FALSE
