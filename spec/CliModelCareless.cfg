SPECIFICATION Spec
CONSTANT Careless = TRUE
INVARIANT Kept
CHECK_DEADLOCK FALSE
