SPECIFICATION Spec
INVARIANTS Law Rms From Lamb Emit
CHECK_DEADLOCK FALSE
