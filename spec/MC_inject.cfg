SPECIFICATION Spec
INVARIANTS Outputs Reported ReportedAfter Emit
CHECK_DEADLOCK FALSE
