SPECIFICATION Spec
INVARIANT Recognised
INVARIANT Kind
CHECK_DEADLOCK FALSE
