SPECIFICATION Spec
INVARIANT Telescopes
INVARIANT Average
INVARIANT Convex
INVARIANT Copy
INVARIANT Emit
CHECK_DEADLOCK FALSE
