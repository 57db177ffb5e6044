SPECIFICATION Spec
INVARIANTS Counts Average Constant Range0 First Emit
CHECK_DEADLOCK FALSE
