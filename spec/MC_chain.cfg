SPECIFICATION Spec
INVARIANTS Outputs Slots Rejects Emit
CHECK_DEADLOCK FALSE
