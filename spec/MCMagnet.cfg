SPECIFICATION Spec
CONSTANTS Part = "so"
 Max = 4
 Emit = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
