SPECIFICATION Spec
CONSTANTS N = 24
 D = 1200
INVARIANT Right
CHECK_DEADLOCK FALSE
