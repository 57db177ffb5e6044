SPECIFICATION Spec
INVARIANTS Anneal Silent Count Emit
CHECK_DEADLOCK FALSE
