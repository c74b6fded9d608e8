SPECIFICATION Spec
INVARIANT Inv
INVARIANT OneOfEach
INVARIANT Supported
PROPERTY Untouched
CHECK_DEADLOCK FALSE
