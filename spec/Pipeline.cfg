SPECIFICATION Spec
CONSTANTS Capacity = 3
MaxTokens = 5
Calls = {c1}
Careful = TRUE
Last = TRUE
INVARIANTS Bounded InOrder Complete
PROPERTIES Returns NoLeak
CHECK_DEADLOCK FALSE
