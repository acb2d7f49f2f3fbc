CONSTANTS
  Scenario = "index"
  Depth = 3
  Most = 5
  Shared = FALSE
SPECIFICATION Spec
INVARIANTS Report Start
PROPERTIES Apart Keeps
CHECK_DEADLOCK FALSE
