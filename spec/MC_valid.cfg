SPECIFICATION Spec
INVARIANTS Finite NoFlip Periods Emit
CHECK_DEADLOCK FALSE
