SPECIFICATION Spec
INVARIANTS Linearity Trust Direction Central Emit
CHECK_DEADLOCK FALSE
