SPECIFICATION Spec
CONSTANTS Locked = TRUE
Adders = {a1, a2, a3}
Lookers = {l1, l2}
Looks = 1
INVARIANTS NothingLost Explained
CHECK_DEADLOCK FALSE
