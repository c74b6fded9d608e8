SPECIFICATION Spec
INVARIANT Inv
INVARIANT Progress
CHECK_DEADLOCK FALSE
