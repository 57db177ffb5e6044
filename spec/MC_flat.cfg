SPECIFICATION Spec
INVARIANTS Outputs Transparent Emit
CHECK_DEADLOCK FALSE
