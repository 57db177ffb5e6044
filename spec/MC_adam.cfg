SPECIFICATION Spec
INVARIANTS Adam Belief Yogi Radam Constant Count Emit
CHECK_DEADLOCK FALSE
