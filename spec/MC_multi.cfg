SPECIFICATION Spec
INVARIANTS Outputs InnerState Counters Position Emit
CHECK_DEADLOCK FALSE
