SPECIFICATION Spec
INVARIANTS FunctionOfLineage Emit
CHECK_DEADLOCK FALSE
