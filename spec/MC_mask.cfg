SPECIFICATION Spec
INVARIANTS Outputs NonInterference Emit
CHECK_DEADLOCK FALSE
