SPECIFICATION Spec
INVARIANTS AllOrNothing NeverStuck
CHECK_DEADLOCK FALSE
CONSTANTS Names <- ThreeNames
Careful = FALSE
MaxTries = 3
