SPECIFICATION Spec
INVARIANTS Outputs InnerState Counter Emit
CHECK_DEADLOCK FALSE
