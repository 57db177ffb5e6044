SPECIFICATION Spec
INVARIANTS Orthogonal Inverse Commutes Powers Eigen Dominates Bounded Emit
CHECK_DEADLOCK FALSE
