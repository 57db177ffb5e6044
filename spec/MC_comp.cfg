SPECIFICATION Spec
INVARIANTS JoinLaw Warm Restart Through OneCycle Emit
CHECK_DEADLOCK FALSE
