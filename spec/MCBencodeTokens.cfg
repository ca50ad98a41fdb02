SPECIFICATION Spec
CONSTANTS L = 6
 Emit = FALSE
 Chunks <- TokenChunks
INVARIANT Inv
CHECK_DEADLOCK FALSE
