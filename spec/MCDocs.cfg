SPECIFICATION Spec
CONSTANTS Part = "state"
 Max = 2
 Emit = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
