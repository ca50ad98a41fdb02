SPECIFICATION Spec
CONSTANTS Depth = 3
 Emit = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
