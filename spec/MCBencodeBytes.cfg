SPECIFICATION Spec
CONSTANTS L = 5
 Emit = FALSE
 Chunks <- ByteChunks
INVARIANT Inv
CHECK_DEADLOCK FALSE
