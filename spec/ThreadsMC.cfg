SPECIFICATION Spec
INVARIANT OwnOptions
INVARIANT FirstRegistration
INVARIANT Unforgotten
CHECK_DEADLOCK FALSE
