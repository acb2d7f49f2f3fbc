SPECIFICATION Spec
CONSTANTS Capacity = 1
MaxTokens = 1
Calls = {c1, c2}
Careful = TRUE
Last = TRUE
INVARIANTS Bounded InOrder Complete
PROPERTIES Returns NoLeak
CHECK_DEADLOCK FALSE
