SPECIFICATION Spec
CONSTANTS Len1 = 4
 Emit = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
