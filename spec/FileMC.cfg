SPECIFICATION Spec
INVARIANT Inv
INVARIANT Sane
CHECK_DEADLOCK FALSE
