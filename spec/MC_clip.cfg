SPECIFICATION Spec
INVARIANTS Clip Global Unit Partition Emit
CHECK_DEADLOCK FALSE
