SPECIFICATION Spec
INVARIANTS Convex Huber Sigmoids Softmaxes Smooths Cosines CosGrad Emit
CHECK_DEADLOCK FALSE
