SPECIFICATION Spec
INVARIANTS Updates States StateDts Counters Blind Emit
CHECK_DEADLOCK FALSE
