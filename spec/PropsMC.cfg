SPECIFICATION Spec
INVARIANT Sizes
INVARIANT Arithmetic
CHECK_DEADLOCK FALSE
