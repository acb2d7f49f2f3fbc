CONSTANTS
  Scenario = "lists"
  Depth = 4
  Most = 5
  Shared = TRUE
SPECIFICATION Spec
PROPERTIES Apart Keeps
CHECK_DEADLOCK FALSE
