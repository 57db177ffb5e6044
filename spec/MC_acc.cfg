SPECIFICATION Spec
INVARIANTS Cases Sm3 Cover Emit
CHECK_DEADLOCK FALSE
