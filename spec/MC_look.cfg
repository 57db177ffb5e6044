SPECIFICATION Spec
INVARIANTS Steps Position Emit
CHECK_DEADLOCK FALSE
