SPECIFICATION Spec
CONSTANTS Capacity = 3
MaxTokens = 5
Calls = {c1}
Careful = TRUE
Last = FALSE
PROPERTIES Returns NoLeak
CHECK_DEADLOCK FALSE
