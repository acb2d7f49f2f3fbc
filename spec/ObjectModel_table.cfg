CONSTANTS
  Scenario = "table"
  Depth = 3
  Most = 2
  Shared = FALSE
SPECIFICATION Spec
INVARIANTS Report Start
PROPERTIES Apart Keeps
CHECK_DEADLOCK FALSE
