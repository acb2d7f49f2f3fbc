SPECIFICATION Spec
CONSTANTS Locked = FALSE
Adders = {a1, a2}
Lookers = {l1}
Looks = 2
INVARIANTS NothingLost Explained
CHECK_DEADLOCK FALSE
