SPECIFICATION Spec
INVARIANT Inv
INVARIANT Stops
CHECK_DEADLOCK FALSE
PROPERTY Ends
