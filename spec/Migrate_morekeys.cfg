SPECIFICATION Spec
CONSTANTS Universe = "morekeys"
Careless = ""
Report = TRUE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
