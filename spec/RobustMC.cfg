SPECIFICATION Spec
INVARIANT InBounds
INVARIANT Allocation
INVARIANT Work
INVARIANT Stack
INVARIANT Terminates
PROPERTY Ends
CHECK_DEADLOCK FALSE
