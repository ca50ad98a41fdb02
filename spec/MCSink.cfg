SPECIFICATION Spec
CONSTANTS Max = 3
 Emit = FALSE
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
