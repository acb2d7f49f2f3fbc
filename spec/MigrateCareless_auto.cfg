SPECIFICATION Spec
CONSTANTS Universe = "nulls"
Careless = "auto in any order"
Report = FALSE
INVARIANTS NeverRefused Reaches Goes Leaves Places
CHECK_DEADLOCK FALSE
