SPECIFICATION Spec
INVARIANTS Dp Sgd Sensitive Order Emit
CHECK_DEADLOCK FALSE
