SPECIFICATION Spec
CONSTANTS Part = "number"
 Depth = 1
 Emit = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
