SPECIFICATION Spec
CONSTANTS M = 16
 Depth = 3
 Emit = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
