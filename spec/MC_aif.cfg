SPECIFICATION Spec
INVARIANTS Outputs InnerState Counters Dropped Emit
CHECK_DEADLOCK FALSE
