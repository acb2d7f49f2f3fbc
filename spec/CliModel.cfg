SPECIFICATION Spec
CONSTANT Careless = FALSE
INVARIANT Kept
INVARIANT Untouched
PROPERTY Ends
CHECK_DEADLOCK FALSE
