SPECIFICATION Spec
INVARIANT RoundTrip
INVARIANT NoFalseSync
INVARIANT SizeExact
INVARIANT AllBytes
CHECK_DEADLOCK FALSE
