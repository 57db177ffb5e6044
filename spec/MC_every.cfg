SPECIFICATION Spec
INVARIANTS Outputs Emit
CHECK_DEADLOCK FALSE
