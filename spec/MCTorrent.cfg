SPECIFICATION Spec
CONSTANTS Max = 2
 Emit = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
