SPECIFICATION Spec
CONSTANTS Wide = FALSE
 Emit = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
