SPECIFICATION Spec
CONSTANTS Depth = 2
 Emit = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
