SPECIFICATION Spec
CONSTANTS Locked = TRUE
Adders = {a1, a2}
Lookers = {l1}
Looks = 2
INVARIANTS NothingLost Explained Exact
CHECK_DEADLOCK FALSE
