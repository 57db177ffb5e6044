SPECIFICATION Spec
INVARIANTS TraceSum EmaSum Constant Count Emit
CHECK_DEADLOCK FALSE
