SPECIFICATION Spec
CONSTANTS Part = "peers"
 MT = 1
 MP = 1
 MR = 1
 MI = 2
 Emit = FALSE
VIEW View
INVARIANT Inv
PROPERTIES MutForward ImmFixed EvictOne PeersStay
CHECK_DEADLOCK FALSE
