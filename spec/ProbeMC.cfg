SPECIFICATION Spec
INVARIANT Prefixed
INVARIANT Monotone
INVARIANT Decided
INVARIANT Stays
PROPERTY Kept
CHECK_DEADLOCK FALSE
