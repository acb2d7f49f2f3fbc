SPECIFICATION Spec
CONSTANTS Capacity = 3
MaxTokens = 5
Calls = {c1}
Careful = FALSE
Last = TRUE
PROPERTIES Returns NoLeak
CHECK_DEADLOCK FALSE
