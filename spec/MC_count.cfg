SPECIFICATION Spec
INVARIANTS Steps Counters InRange Emit
CHECK_DEADLOCK FALSE
