SPECIFICATION Spec
INVARIANT Back
INVARIANT AllBytes
INVARIANT Exact
INVARIANT ArtOff
CHECK_DEADLOCK FALSE
