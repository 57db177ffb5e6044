SPECIFICATION Spec
INVARIANTS NonNeg Exact Nans Flags Emit
CHECK_DEADLOCK FALSE
