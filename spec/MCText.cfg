SPECIFICATION Spec
CONSTANTS Part = "hex"
 Max = 4
 Emit = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
