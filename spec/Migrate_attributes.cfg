SPECIFICATION Spec
CONSTANTS Universe = "attributes"
Careless = ""
Report = TRUE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
