CONSTANTS
  Scenario = "lists"
  Depth = 8
  Most = 4
  Shared = FALSE
SPECIFICATION Spec
INVARIANTS Report Start
PROPERTIES Apart Keeps
CHECK_DEADLOCK FALSE
