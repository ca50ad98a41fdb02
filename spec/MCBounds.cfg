SPECIFICATION Spec
CONSTANTS Max = 3
 Emit = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
